import copy
import numpy as np
from hypothesis import strategies as st
from .plan import PlanCheck, ALLCATS, rate
from .. import gen, sut, ref as R, oracle, spectool, build
from ..run import Skip

fx = sut.fx
NOARR = ('hps', 'ct')                 # wrap the given series into another one: no way to look up its label


def keyed(spec):
    """every time series becomes a TimeSeriesData whose label can be looked up later; charge state bounds scalar"""
    k = [0]

    def fn(v, extra, w):
        r = R.raw(v)
        if not isinstance(r, list):
            return v
        if extra:
            return r[0]
        k[0] += 1
        return {**(v if isinstance(v, dict) and 'tsd' in v else {}), 'tsd': r, 'key': k[0]}
    s = spectool.map_values(spec, fn)
    for c in s['comps']:
        if c['kind'] in NOARR:
            for q in ('cop', 'sed'):
                if c.get(q) is not None:
                    r = R.raw(c[q])
                    c[q] = r[0] if isinstance(r, list) else r
    return s, k[0]


def couple(rf, spec, pairs, labels, fixdata, fix_storage, pct, pen, always):
    """adds the stated equality of the periods of a cluster to the reference model"""
    lp, n, dt = rf.lp, rf.n, rf.dt
    m = len(pairs)
    lim = round(pct / 100 * m) if pct > 0 else 0

    def same(series, binary):
        """series: list of n expressions"""
        if m == 0:
            return
        if not binary or pct <= 0:
            for i, j in pairs:
                lp.eq(R.add(dict(series[i]), series[j], -1.0), 0)
            return
        ds = []
        for i, j in pairs:
            d = lp.var(0, 1)
            ds.append(d)
            e = R.add(dict(series[i]), series[j], -1.0)
            lp.le(R.add(dict(e), {d: -1.0}), 0)
            lp.ge(R.add(dict(e), {d: 1.0}), 0)
            lp.c[d] += pen
        lp.le({d: 1.0 for d in ds}, lim)

    for c in spec['comps']:
        L = c['label']
        if L not in labels or (c['kind'] == 'storage' and not fix_storage):
            continue
        ins, outs = R.flows_of(c)
        eo = R.effective_onoff(c, n)
        states = [(rf.on[L, f['label']], eo[f['label']], (L, f['label']), [f.get('prev')]) for f in ins + outs if eo[f['label']] is not None]
        if c.get('onoff') is not None:
            states.append((rf.con[L], c['onoff'], None, [f.get('prev') for f in ins + outs]))
        for on, o, key, prevs in states:
            same([{x: 1.0} for x in on], True)
            if always or any(o.get(k) is not None for k in ('sw', 'sw_max', 'on_min', 'on_max')) or o.get('force'):
                sw = rf.swv[key if key is not None else L]
                last = R.prev_states(prevs)[-1]
                off = [R.add({sw[t]: 1.0, on[t]: -1.0}, {on[t - 1]: 1.0} if t else {None: float(last)}) for t in range(n)]
                same([{x: 1.0} for x in sw], True)
                same(off, True)
            if fixdata:
                for val_, a, b in ((1, 'con_min', 'con_max'), (0, 'coff_min', 'coff_max')):
                    if o.get(a) is None and o.get(b) is None:
                        continue
                    pd = R.prev_duration(R.prev_states(prevs), rf.prev_dt, val_)
                    M = float(dt.sum()) + pd
                    du = [lp.var(0) for _ in range(n)]
                    inb = (lambda t: {on[t]: 1.0}) if val_ else (lambda t: {None: 1.0, on[t]: -1.0})
                    for t in range(n):
                        before = {du[t - 1]: 1.0} if t else {None: pd}
                        lp.le(R.add({du[t]: 1.0}, inb(t), -M), 0)                                   # 0 outside
                        lp.le(R.add({du[t]: 1.0}, before, -1.0), dt[t])
                        lp.ge(R.add(R.add({du[t]: 1.0}, before, -1.0), inb(t), -2 * M), dt[t] - 2 * M)
                    same([{x: 1.0} for x in du], False)
        if fixdata:
            for f in ins + outs:
                same([{x: 1.0} for x in rf.rate[L, f['label']]], False)
            if c['kind'] == 'storage':
                same([{x: 1.0} for x in rf.cs[L]], False)
        elif c['kind'] == 'conv' and c.get('segs') is not None:
            for k in range(len(rf.segz[L, 0])):
                same([{rf.segz[L, t][k]: 1.0} for t in range(n)], True)


WEIGHTS = st.fixed_dictionaries({
    'k': st.integers(2, 4), 'm': st.integers(2, 3),
    'shapes': st.lists(st.lists(st.integers(0, 4), min_size=4, max_size=4), min_size=3, max_size=3),
    'series': st.lists(st.fixed_dictionaries({
        'per': st.lists(st.integers(0, 2), min_size=6, max_size=6), 'f': st.sampled_from([1.0, 3.0, 10.0]),
        'count': st.sampled_from([None, None, 0.1, 0.25, 0.5, 1.0, 0.02, 'g', 'g', 'h'])}), min_size=2, max_size=6),
    'P': st.integers(3, 6)})


def partitions(P, m):
    def go(pre, top):
        if len(pre) == P:
            if top == m: yield pre
            return
        for i in range(min(top + 1, m)):
            yield from go(pre + [i], max(top, i + 1))
    yield from go([], 0)


def spread(x, part):
    """sum of the squared distances to the mean of the own cluster"""
    part = np.array(part)
    return sum(float(np.sum((x[part == i] - x[part == i].mean(axis=0)) ** 2)) for i in set(part.tolist()))


def weighted(w, ctx):
    """the periods made equal are those which are closest in the weighted data (each series scaled to 0..1)"""
    k, P = w['k'], w['P']
    m = min(w['m'], P - 1)
    data = [np.concatenate([np.array(w['shapes'][i][:k], float) for i in q['per'][:P]]) * q['f'] for q in w['series']]
    use = [(q, d) for q, d in zip(w['series'], data) if len(set(d)) > 1]
    if len(use) < 2:
        ctx.tag('weights:constant'); return []
    sizes = {g: sum(q['count'] == g for q, _ in use) for g in 'gh'}
    want = [1 / sizes[q['count']] if q['count'] in ('g', 'h') else q['count'] or 1.0 for q, _ in use]
    unit = [((d - d.min()) / (d.max() - d.min())).reshape(P, k) for _, d in use]
    x = np.hstack([u * f for u, f in zip(unit, want)])
    ps = list(partitions(P, m))
    cost = sorted((spread(x, p), p) for p in ps)
    if cost[1][0] < 1.3 * cost[0][0] + 0.02 * k:
        ctx.tag('weights:close'); return []
    fs = fx.FlowSystem(build.time_array({'dt': [1.0] * (P * k)}))
    cost_ = fx.Effect('costs', '', '', is_standard=True, is_objective=True)
    bus = fx.Bus('B', excess_penalty_per_flow_hour=100.0)
    els = []
    for i, (q, d) in enumerate(use):
        kw = {} if q['count'] is None else {'agg_group': q['count']} if isinstance(q['count'], str) else {'agg_weight': q['count']}
        ts = fx.TimeSeriesData(d, **kw)
        if i % 2: els.append(fx.Sink(f'K{i}', fx.Flow(f'f{i}', bus, size=10, fixed_relative_profile=ts)))
        else: els.append(fx.Source(f'S{i}', fx.Flow(f'f{i}', bus, size=100, effects_per_flow_hour={cost_: ts})))
    fs.add_elements(cost_, *els)
    par = fx.AggregationParameters(hours_per_period=float(k), nr_of_periods=m, fix_storage_flows=False,
                                   aggregate_data_and_fix_non_binary_vars=True)
    calc = fx.AggregatedCalculation('agg', fs, par)
    np.random.seed(0)
    calc.do_modeling()
    got = {frozenset(int(v[0]) // k for v in vs) for vs in calc.aggregation.get_cluster_indices().values() if len(vs)}
    best = cost[0][1]
    exp = {frozenset(i for i in range(P) if best[i] == c) for c in set(best)}
    plain = min((spread(np.hstack(unit), p), p) for p in ps)[1]
    ctx.tag('weights', 'weights:' + ('decide' if plain != best else 'same'))
    ctx.nontrivial = plain != best
    if got != exp:
        part = [next(c for c, g in enumerate(got) if i in g) for i in range(P)]
        if len(got) <= m and spread(x, part) < 1.1 * cost[0][0] + 1e-9:
            return []
        return [('weights', f'periods {sorted(map(sorted, got))} were made equal, the weights {[round(f, 3) for f in want]} ask for '
                            f'{sorted(map(sorted, exp))}')]
    return []


class Check(PlanCheck):
    id = 'C17'
    rule = ('random systems of regular steps, 2-5 periods of 2-4 steps (sometimes an incomplete last one), aggregated with '
            'flixOpt/tsam to every number of typical periods, with the data aggregated or only the binary states equated, '
            'storages fixed or not, a subset of the components, free deviations with and without penalty, peak periods, '
            'over the whole horizon or a window; clusterings decided by the weights of the series against the best partition; the plan is recomputed with the aggregated data, equal operation is '
            'checked step by step, the optimum is compared with the reference extended by the stated equalities; '
            'non-trivial: at least two periods share a cluster and a plan exists')
    profiles = [dict(kinds=dict(source=1, sink=1, storage=4, conv=2, named=2), extra=(1, 3), arr=70, st_bounds=20),
                dict(onoff=45, con_onoff=25, dur=30, prev=35, arr=60, starts=50, extra=(0, 2)),
                dict(onoff=35, con_onoff=10, starts=70, run=40, arr=60, on_tot=10, extra=(1, 2)),
                dict(effects=50, share=60, extra=(0, 3), arr=75, kinds=dict(source=1, conv=3, named=2, trans=2, sas=1, seg=3),
                     invest=20, cap_invest=20)]
    W = dict(irreg=0, inv_seg=0, tr_inv=5)
    quick, thorough = 800, 20000

    def strategy(self, tier):
        @st.composite
        def s(draw):
            P = draw(st.integers(2, 5))
            k = draw(st.integers(2, 4))
            rem = draw(st.sampled_from([0, 0, 0, 1, k - 1]))
            n = P * k + (rem if rem < k else 0)
            top = 14
            if draw(st.integers(0, 19)) == 19:      # many periods
                n, top = draw(st.integers(5, 9)) * k, 26
                P = n // k
            while n > top:
                n -= k; P -= 1
            prof = draw(st.sampled_from(self.profiles))
            spec = draw(gen.specs(**{**prof, **self.W, 'n': (n, n)}))
            return [spec, k, draw(st.integers(1, 5)), draw(st.integers(0, 1)), draw(st.integers(0, 1)),
                    draw(st.sampled_from([0, 0, 0, 12.5, 20, 34, 50, 100])), draw(st.sampled_from([0, 0, 1.0, 25.0])),
                    draw(st.integers(0, 9)), draw(st.sampled_from([0, 0, 0, 0, 0, 0, 0, 8, 9, 10, 11, 12, 13])), draw(st.integers(0, 9)), draw(st.integers(0, 4))]
        return st.integers(0, 6).flatmap(lambda r: s() if r else WEIGHTS)

    def run(self, case, ctx):
        if isinstance(case, dict):
            return weighted(case, ctx)
        spec0, k, m, fixdata, fix_storage, pct, pen, comp_sel, peak, win, groups = copy.deepcopy(case)
        fixdata, fix_storage = bool(fixdata), bool(fix_storage)
        if pct == 0: pen = 0
        spec, nkey = keyed(spec0)
        if nkey == 0 or len(set(spec['time']['dt'])) > 1:
            ctx.tag('unusable'); return []
        if pen:       # off-states double the deviations: not stated how they count
            for _, _, o in spectool.all_onoff(spec):
                o.pop('coff_min', None); o.pop('coff_max', None)
        n = len(spec['time']['dt'])
        h = spec['time']['dt'][0]
        spec['time'].pop('last', None)
        if groups in (1, 2):
            def grp(v, extra, w):
                if isinstance(v, dict) and v.get('key') is not None:
                    return {**v, **({'group': f'g{v["key"] % 2}'} if groups == 1 else {'weight': [0.5, 1.0, 0.25][v['key'] % 3]})}
                return v
            spec = spectool.map_values(spec, grp)
        P = -(-n // k)
        a, b, idx = 0, n, None
        if win >= 8 and P >= 3:
            a, b = (k, n) if win == 8 else (0, (P - 1) * k)
            idx = range(a, b)
        P = -(-(b - a) // k)
        m = P if m == 5 else 1 + (m - 1) % max(1, P - 1)
        B = build.build(spec)
        tsd = {q[1]: o for q, o in build.SHARED.items() if isinstance(q, tuple) and q[0] == 'tsd'}
        comps = [c['label'] for c in spec['comps']]
        sel = None if comp_sel < 6 else [c for i, c in enumerate(comps) if (i + comp_sel) % 2] or None
        kw = {}
        vals = {}
        spectool.map_values(spec, lambda v, e, w: vals.__setitem__(v['key'], v['tsd']) if isinstance(v, dict) and v.get('key') else None)
        high, low = [], []
        if peak >= 8:
            cand = [q for q in sorted(tsd) if len(set(vals[q][a:b])) > 1]
            if cand:
                one, two = (cand[(peak + comp_sel + z) % len(cand)] for z in (0, 1))
                high, low = {8: ([one], []), 9: ([], [one]), 10: ([one], [two]), 11: ([one, two], []), 12: ([], [one, two]), 13: ([one], [one])}[peak]
                high, low = list(dict.fromkeys(high)), list(dict.fromkeys(low))
                if high: kw['time_series_for_high_peaks'] = [tsd[q] for q in high]
                if low: kw['time_series_for_low_peaks'] = [tsd[q] for q in low]
        peaks = [(np.max, q) for q in high] + [(np.min, q) for q in low]
        if not any(len(set(v)) > 1 for v in vals.values()):
            ctx.tag('no_varying_series'); return []
        par = fx.AggregationParameters(hours_per_period=h * k, nr_of_periods=m, fix_storage_flows=fix_storage,
                                       aggregate_data_and_fix_non_binary_vars=fixdata,
                                       percentage_of_period_freedom=pct, penalty_of_period_freedom=pen, **kw)
        calc = fx.AggregatedCalculation('agg', B.fs, par, components_to_clusterize=[B.comps[c] for c in sel] if sel else None,
                                        **({} if idx is None else {'time_indices': idx}))
        np.random.seed(0)
        try:
            calc.do_modeling()
        except IndexError as e:
            # tsam can not handle a cluster whose periods all became peak periods
            tb = e.__traceback__
            while tb.tb_next: tb = tb.tb_next
            if len(peaks) < 2 or tb.tb_frame.f_code.co_name != '_rescaleClusterPeriods': raise
            ctx.tag('tsam_empty_cluster'); return []
        bad = []
        # ---- clusters: whole periods, each step once, not more clusters than asked for
        agg = calc.aggregation
        cl = [[[int(x) for x in v] for v in vs] for vs in agg.get_cluster_indices().values() if len(vs)]
        N = b - a
        flat = sorted(x for vs in cl for v in vs for x in v)
        if flat != list(range(N)):
            bad.append(('cluster', f'clusters {cl} do not cover the {N} steps once'))
        for v in (v for vs in cl for v in vs):
            if v and (v != list(range(v[0], v[0] + len(v))) or v[0] % k or len(v) != min(k, N - v[0])):
                bad.append(('cluster', f'{v} is no period of {k} steps'))
        if len(cl) > m + len(peaks):
            bad.append(('cluster', f'{len(cl)} clusters, asked for {m} typical periods'))
        if bad:
            return bad
        # ---- aggregated data
        sub = spectool.window(spec, a, b)
        df = agg.aggregated_data
        cols = {}
        for q, o in tsd.items():
            if len(set(vals[q])) == 1:
                continue                              # constant: no time series
            if o.label is None:
                ctx.tag('label_unknown'); return []
            cols[q] = np.array(df[o.label], float)
            if len(cols[q]) != N:
                bad.append(('data', f'{o.label}: aggregated to {len(cols[q])} of {N} steps')); return bad
            sc = 1 + np.max(np.abs(vals[q]))
            for vs in cl:
                for v in vs[1:]:
                    e = min(len(v), len(vs[0]))
                    if np.max(np.abs(cols[q][v[:e]] - cols[q][vs[0][:e]])) > 1e-6 * sc:
                        bad.append(('data', f'{o.label}: periods of one cluster have different data'))
            org = np.array(vals[q][a:b], float)
            if len(cl) == P and N % k == 0 and not peaks and np.max(np.abs(cols[q] - org)) > 1e-6 * sc:
                bad.append(('data', f'{o.label}: every period is its own cluster, but the data changed from {org} to {cols[q]}'))
            if np.max(cols[q]) > np.max(org) + 1e-6 * sc or np.min(cols[q]) < np.min(org) - 1e-6 * sc:
                bad.append(('data', f'{o.label}: aggregated data {cols[q]} outside the range of {org}'))
            for f, w in peaks:
                # of several peaks, tsam scales those whose period is a cluster of its own
                alone = len(peaks) > 1 and any(len(vs) == 1 and f(org[vs[0]]) == f(org) for vs in cl)
                if w == q and abs(f(cols[q]) - f(org)) > 1e-6 * sc and not alone:
                    bad.append(('data', f'{o.label}: the peak of {org} is lost in {cols[q]} (high {high}, low {low})'))
        if bad:
            return bad
        if fixdata:
            def put(v, e, w):
                if isinstance(v, dict) and v.get('key') is not None:
                    return [float(x) for x in cols[v['key']]] if v['key'] in cols else v['tsd']
                return v
            sub = spectool.map_values(sub, put)
        pairs = []
        for vs in cl:
            for v in vs[1:]:
                pairs += [(vs[0][q], v[q]) for q in range(1, min(len(v), len(vs[0])))]
        out = sut.solve_calc(calc, 'direct', B)
        labels = set(sel or comps)
        m_, models = None, []
        for always in (True, False):
            rf = R.Ref(sub)
            couple(rf, sub, pairs, labels, fixdata, fix_storage, pct, pen, always)
            r = rf.solve()
            if out.status == 'trouble' and not r.ok:
                raise Skip('solver')
            if not models: first = rf
            models.append(r)
            m_ = sut.differ(out, rf, r, ctx)
            if m_ is None:
                break
        if m_:
            bad.append(('optimum', f'periods {cl}: {m_}'))
        ctx.tag(out.status, f'clusters:{len(cl)}of{P}', 'data' if fixdata else 'binaries', 'freedom' if pct else 'strict',
                'window' if idx is not None else 'whole', 'subset' if sel else 'all', f'peaks:{len(peaks)}')
        if out.status != 'optimal':
            return bad
        # ---- the plan is valid and equal in the periods of a cluster
        for z in oracle.check(sub, out.res, ref=R.Ref(sub), tol=3e-6):
            if pen and z[1].startswith(('penalty ', 'objective ')):        # deviations are penalised, too (see the optimum)
                continue
            if z[0] in ALLCATS:
                bad.append(z)
        lim = round(pct / 100 * len(pairs)) if pct else 0
        I, J = [i for i, _ in pairs], [j for _, j in pairs]
        for c in sub['comps']:
            if c['label'] not in labels or (c['kind'] == 'storage' and not fix_storage):
                continue
            for kk, v in states(out.res['Components'][c['label']]):
                d = int(np.sum(np.abs(v[I] - v[J]) > 0.5)) if pairs else 0
                if d > lim:
                    bad.append(('equal', f'{c["label"]} {kk}: {d} of {len(pairs)} states differ between equal periods (allowed {lim}): {v}, periods {cl}'))
            if fixdata and pairs:
                for f in sum(R.flows_of(c), []):
                    v = rate(out.res, c, f)
                    if np.max(np.abs(v[I] - v[J])) > 2e-6 * (1 + np.max(np.abs(v))):
                        bad.append(('equal', f'{c["label"]}.{f["label"]}: rates {v} differ between equal periods {cl}'))
        ctx.nontrivial = bool(pairs)
        return bad


def states(d, path=''):
    for k, v in d.items():
        if isinstance(v, dict):
            yield from states(v, f'{path}/{k}')
        elif k in ('on', 'off', 'switchOn', 'switchOff') and getattr(v, 'ndim', 0) == 1:
            yield f'{path}/{k}', v
