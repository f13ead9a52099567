"""Checks a solved plan (calculation.results()) against the spec: numpy recomputation, one category per property."""
import itertools
import numpy as np
from . import ref as R
from .ref import vec, flows_of, EPS


class Bad(list):
    def add(self, cat, msg):
        self.append((cat, msg))


def arr(x, n):
    a = np.atleast_1d(np.array(x, float))
    if len(a) == 1 and n != 1:
        a = np.full(n, a[0])
    return a


def near(a, b, tol, scale=0.0):
    m = np.maximum(np.maximum(np.abs(a), np.abs(b)), scale)
    return np.all(np.abs(np.asarray(a) - np.asarray(b)) <= tol * (1 + m))


def durations(on, dt, prevdur, val=1):
    out, d = [], prevdur
    for x, h in zip(on, dt):
        d = d + h if x == val else 0.0
        out.append(d)
    return np.array(out)


def check(spec, res, tol=1e-6, onthr=EPS / 2, ref=None):
    """returns list of (category, message)"""
    bad = Bad()
    rf = ref or R.Ref(spec)
    dt, prev_dt = R.time_info(spec['time'])
    n = len(dt)
    comps = res['Components']
    x = {}                      # ref variable -> value
    rate, st = {}, {}
    T = float(dt.sum())
    # fixed point arithmetic: values much larger than 1 get proportionally more room
    for c in spec['comps']:
        L = c['label']
        ins, outs = flows_of(c)
        if L not in comps:
            bad.add('struct', f'component {L} missing in results'); return bad
        for f in ins + outs:
            fr = comps[L].get(f['label'])
            if fr is None or 'flow_rate' not in fr:
                bad.add('struct', f'flow {L}.{f["label"]} missing in results'); return bad
            r = np.array(fr['flow_rate'], float)
            if r.shape != (n,) or not np.all(np.isfinite(r)):
                bad.add('struct', f'flow rate of {L}.{f["label"]} has shape {r.shape}, expected {(n,)}'); return bad
            rate[L, f['label']] = r
            for t in range(n):
                x[rf.rate[L, f['label']][t]] = r[t]
    # ---- time axis
    if not near(arr(res['Time intervals in hours'], n), dt, 1e-9):
        bad.add('time', f'step lengths {res["Time intervals in hours"]} expected {list(dt)}')
    if len(res['Time']) != n + 1:
        bad.add('time', 'time axis length')
    # ---- flows
    for c in spec['comps']:
        L = c['label']
        ins, outs = flows_of(c)
        eo = R.effective_onoff(c, n)
        for f in ins + outs:
            key = (L, f['label'])
            nm = '.'.join(key)
            r = rate[key]
            fr = comps[L][f['label']]
            oo = eo[f['label']]
            inv = R.invest_of_flow(c, f)
            prof = vec(f.get('prof'), n)
            lo = vec(f.get('rmin'), n, 0.0) if prof is None else prof
            hi = vec(f.get('rmax'), n, 1.0) if prof is None else prof
            if inv is None:
                size = R.size_of(f)
            else:
                size = invest(bad, rf, x, nm, key, inv, fr.get('Investment'), tol)
                if size is None:
                    continue
            on = (r > onthr).astype(int)
            amb = (r > tol) & (r < onthr) | (r > onthr) & (r < onthr * 1.5) if oo is not None else np.zeros(n, bool)
            sc = max(1.0, min(size, 1e7))
            tl = tol * (1 + sc)
            if oo is None:
                if np.any(r < lo * size - tl) or np.any(r > hi * size + tl):
                    bad.add('flow' if inv is None else 'invest', f'{nm}: rate {r} outside [{lo * size}, {hi * size}]')
            else:
                low = np.where(on == 1, lo * size, 0.0)
                if prof is not None and inv is not None:
                    low = lo * size
                if np.any((r < low - tl) & ~amb) or np.any(r > hi * size + tl):
                    bad.add('flow' if inv is None else 'invest', f'{nm}: rate {r} outside [{low}, {hi * size}] (on/off)')
            tot = float((r * dt).sum())
            ts = tol * (1 + np.sum(np.abs(r) * dt))
            if abs(float(fr['sumFlowHours']) - tot) > 10 * ts:
                bad.add('flow', f'{nm}: sumFlowHours {fr["sumFlowHours"]} but recomputed {tot}')
            if f.get('fh_min') is not None and tot < f['fh_min'] - 10 * ts: bad.add('flow', f'{nm}: flow hours {tot} < {f["fh_min"]}')
            if f.get('fh_max') is not None and tot > f['fh_max'] + 10 * ts: bad.add('flow', f'{nm}: flow hours {tot} > {f["fh_max"]}')
            ls = 10 * tol * (1 + size * T)
            if f.get('lf_max') is not None and tot > f['lf_max'] * size * T + ls: bad.add('flow', f'{nm}: load factor above max: {tot} > {f["lf_max"]}*{size}*{T}')
            if f.get('lf_min') is not None and tot < f['lf_min'] * size * T - ls: bad.add('flow', f'{nm}: load factor below min: {tot} < {f["lf_min"]}*{size}*{T}')
            if oo is not None:
                st[key] = state(bad, rf, x, nm, key, oo, on, amb, fr.get('OnOff'), dt, prev_dt,
                                R.prev_states([f.get('prev')]), tol)
        component(bad, rf, x, c, ins, outs, rate, st, comps[L], dt, prev_dt, tol, onthr)
    # ---- buses
    exs = 0.0
    for b in spec['buses']:
        L = b['label']
        conn = [(c['label'], f['label'], s) for c in spec['comps'] for fs, s in zip(flows_of(c), (-1, 1)) for f in fs
                if f['bus'] == L]
        if not conn:
            continue
        net = sum(s * rate[c, f] for c, f, s in conn)
        big = sum(np.abs(rate[c, f]) for c, f, s in conn)
        br = res['Buses'].get(L)
        if br is None:
            bad.add('balance', f'bus {L} missing'); continue
        p = vec(b.get('pen'), n)
        if p is None:
            if any('excess' in k for k in br):
                bad.add('balance', f'bus {L} without penalty reports excess')
            xi = xo = np.zeros(n)
        else:
            if 'excess_input' not in br or 'excess_output' not in br:
                bad.add('balance', f'bus {L}: excess not reported'); continue
            xi, xo = np.array(br['excess_input'], float), np.array(br['excess_output'], float)
            if xi.shape != (n,) or xo.shape != (n,):
                bad.add('balance', f'bus {L}: excess shape'); continue
            if np.any(xi < -tol) or np.any(xo < -tol):
                bad.add('balance', f'bus {L}: negative excess')
            exs += float((p * dt * (xi + xo)).sum())
            for t in range(n):
                x[rf.exin[L][t]], x[rf.exout[L][t]] = xi[t], xo[t]
        if np.any(np.abs(net + xi - xo) > 10 * tol * (1 + big + xi + xo)):
            bad.add('balance', f'bus {L}: inflow-outflow {net} excess_input {xi} excess_output {xo}')
    effects(bad, spec, rf, x, res, exs, dt, n, tol)
    return bad


def invest(bad, rf, x, nm, key, p, r, tol):
    if r is None or 'size' not in r:
        bad.add('invest', f'{nm}: no investment results'); return None
    size = float(np.asarray(r['size']))
    smin, smax = R.inv_rng(p)
    opt = p.get('optional', True) is not False
    tl = tol * (1 + smax if smax < 1e6 else 1 + abs(size))
    if opt:
        if 'isInvested' not in r:
            bad.add('invest', f'{nm}: isInvested not reported'); return None
        b = float(r['isInvested'])
        if abs(b) > 1e-6 and abs(b - 1) > 1e-6:
            bad.add('invest', f'{nm}: isInvested {b}')
        b = round(b)
        if b == 0 and abs(size) > tl: bad.add('invest', f'{nm}: not invested but size {size}')
        if b == 1 and (size < (smin if p.get('fixed') is not None else max(smin, EPS / 2)) - tl or size > smax + tl): bad.add('invest', f'{nm}: size {size} outside [{smin},{smax}]')
        if nm in rf.inv:
            x[rf.inv[nm]] = b
    else:
        if size < smin - tl or size > smax + tl:
            bad.add('invest', f'{nm}: size {size} outside [{smin},{smax}]')
    x[rf.size[key]] = size
    return size


def state(bad, rf, x, nm, key, p, on, amb, r, dt, prev_dt, prev, tol):
    n = len(dt)
    if r is None or 'on' not in r:
        bad.add('onoff', f'{nm}: no on/off results')
        rep = on
    else:
        rep = np.array(r['on'], float)
        if rep.shape != (n,) or np.any((np.abs(rep) > 1e-9) & (np.abs(rep - 1) > 1e-9)):
            bad.add('onoff', f'{nm}: on states {rep}'); rep = on
        elif np.any((rep != on) & ~amb):
            bad.add('onoff', f'{nm}: reported on {rep}, carries flow {on}')
    rep = np.round(rep).astype(int)
    vs = rf.on.get(key) if isinstance(key, tuple) else rf.con[key]
    for t in range(n):
        x[vs[t]] = rep[t]
    tot = float((rep * dt).sum())
    before = np.concatenate([[prev[-1]], rep[:-1]])
    sw, so = ((rep == 1) & (before == 0)).astype(int), ((rep == 0) & (before == 1)).astype(int)
    for t in range(n):
        x[rf.swv[key][t]] = sw[t]
    if r is not None:
        if 'totalOnHours' in r and abs(float(r['totalOnHours']) - tot) > 1e-5 * (1 + tot):
            bad.add('onoff', f'{nm}: totalOnHours {r["totalOnHours"]} recomputed {tot}')
        if 'switchOn' in r and np.any(np.round(np.array(r['switchOn'], float)) != sw):
            bad.add('onoff', f'{nm}: switchOn {r["switchOn"]} from states {rep} prev {prev}: {sw}')
        if 'switchOff' in r and np.any(np.round(np.array(r['switchOff'], float)) != so):
            bad.add('onoff', f'{nm}: switchOff {r["switchOff"]} from states {rep} prev {prev}: {so}')
        if 'nrSwitchOn' in r and abs(float(r['nrSwitchOn']) - sw.sum()) > 1e-5:
            bad.add('onoff', f'{nm}: nrSwitchOn {r["nrSwitchOn"]} counted {sw.sum()}')
        if 'off' in r and np.any(np.round(np.array(r['off'], float)) != 1 - rep):
            bad.add('onoff', f'{nm}: off {r["off"]} on {rep}')
    if p.get('sw') is not None or p.get('sw_max') is not None or p.get('force'):
        if r is None or 'switchOn' not in r:
            bad.add('onoff', f'{nm}: starts are not reported')
    if p.get('on_min') is not None and tot < p['on_min'] - 1e-6: bad.add('onoff', f'{nm}: on hours {tot} < {p["on_min"]}')
    if p.get('on_max') is not None and tot > p['on_max'] + 1e-6: bad.add('onoff', f'{nm}: on hours {tot} > {p["on_max"]}')
    if p.get('sw_max') is not None and sw.sum() > p['sw_max']: bad.add('onoff', f'{nm}: {sw.sum()} starts > {p["sw_max"]}')
    for v, mn, mx, lab in ((1, p.get('con_min'), p.get('con_max'), 'consecutiveOnHours'),
                           (0, p.get('coff_min'), p.get('coff_max'), 'consecutiveOffHours')):
        if mn is None and mx is None:
            continue
        pd = R.prev_duration(prev, prev_dt, v)
        d = durations(rep, dt, pd, v)
        w = 'on' if v else 'off'
        if r is not None and lab in r and not near(np.array(r[lab], float), d, 1e-5):
            bad.add('dur', f'{nm}: {lab} {r[lab]} recomputed {d} (states {rep}, before {prev}, {pd} h)')
        if mx is not None and np.any((rep == v) & (d > vec(mx, n) + 1e-6)):
            bad.add('dur', f'{nm}: {w} for {d} h, allowed {mx}; states {rep} before {prev} ({pd} h)')
        if mn is not None:
            m = vec(mn, n)
            for t in range(n - 1):
                if rep[t] == v and rep[t + 1] != v and d[t] < m[t] - 1e-6:
                    bad.add('dur', f'{nm}: {w} block ending at step {t} after {d[t]} h < {m[t]} h; states {rep} before {prev} ({pd} h)')
            if 0 < pd < m[0] - 1e-9 and rep[0] != v:
                bad.add('dur', f'{nm}: {w} block before the start lasted {pd} h < {m[0]} h but ended at step 0')
    return rep


def on_segments(vals, segs, t, n, tol):
    """is the point (dict flow->value) on one of the segments?  returns bool"""
    m = len(next(iter(segs.values())))
    for k in range(m):
        lo, hi = 0.0, 1.0
        ok = True
        for a, v in segs.items():
            p, q = vec(v[k][0], n)[t], vec(v[k][1], n)[t]
            y, tl = vals[a], tol * (1 + abs(p) + abs(q))
            if abs(q - p) <= tl * 1e-3:
                if abs(y - p) > 10 * tl: ok = False; break
            else:
                u0, u1 = sorted([(y - p - 10 * tl) / (q - p), (y - p + 10 * tl) / (q - p)])
                lo, hi = max(lo, u0), min(hi, u1)
        if ok and lo <= hi + 1e-12:
            return True
    return False


def component(bad, rf, x, c, ins, outs, rate, st, cr, dt, prev_dt, tol, onthr):
    n = len(dt)
    L = c['label']
    r = {f['label']: rate[L, f['label']] for f in ins + outs}
    inl = {f['label'] for f in ins}
    big = sum(np.abs(v) for v in r.values())
    con = None
    if c.get('onoff') is not None:
        con = np.zeros(n, int)
        amb = np.zeros(n, bool)
        for f in ins + outs:
            con |= (r[f['label']] > onthr).astype(int)
            amb |= (r[f['label']] > tol) & (r[f['label']] < onthr * 1.5)
        con = state(bad, rf, x, L, L, c['onoff'], con, amb, cr.get('OnOff'), dt, prev_dt,
                    R.prev_states([f.get('prev') for f in ins + outs]), tol)
    for i, e in enumerate(R.factor_equations(c, n)):
        s = sum((v if a in inl else -v) * r[a] for a, v in e.items())
        m = sum(np.abs(v * r[a]) for a, v in e.items())
        if np.any(np.abs(s) > 10 * tol * (1 + m)):
            bad.add('conv', f'{L}: conversion equation {i} violated by {s} (rates {r})')
    if c['kind'] == 'conv' and c.get('segs') is not None:
        for t in range(n):
            v = {a: r[a][t] for a in c['segs']}
            if con is not None and all(abs(y) <= onthr for y in v.values()):
                continue
            if not on_segments(v, c['segs'], t, n, tol):
                bad.add('seg', f'{L}: step {t}: {v} is on no common segment of {c["segs"]}')
    grp = R.prevent_group(c)
    if grp:
        act = sum((r[g] > onthr).astype(int) for g in grp)
        if np.any(act > 1):
            bad.add('excl', f'{L}: exclusive flows {[(g, r[g]) for g in grp]} run together')
    if c['kind'] == 'storage':
        cs = np.array(cr.get('charge_state', []), float)
        nd = np.array(cr.get('netto_discharge', []), float)
        if cs.shape != (n + 1,):
            bad.add('storage', f'{L}: charge state shape {cs.shape}'); return
        ch, di = r[c['charging']['label']], r[c['discharging']['label']]
        if nd.shape != (n,) or np.any(np.abs(nd - (di - ch)) > 10 * tol * (1 + ch + di)):
            bad.add('storage', f'{L}: netto_discharge {nd} != {di - ch}')
        ec, ed, ls = vec(c.get('eta_c'), n, 1.0), vec(c.get('eta_d'), n, 1.0), vec(c.get('loss'), n, 0.0)
        e = cs[1:] - (cs[:-1] * (1 - ls * dt) + ch * ec * dt - di * dt / ed)
        if np.any(np.abs(e) > 20 * tol * (1 + np.abs(cs[1:]) + np.abs(cs[:-1]) + (ch + di / ed) * dt)):
            bad.add('storage', f'{L}: charge balance violated by {e} (cs {cs}, ch {ch}, dis {di})')
        cap = c['cap']
        if isinstance(cap, dict):
            size = invest(bad, rf, x, L, L, cap, cr.get('Investment'), tol)
            if size is None:
                return
        else:
            size = cap
        lo, hi = vec(c.get('cmin'), n + 1, 0.0), vec(c.get('cmax'), n + 1, 1.0)
        tl = 10 * tol * (1 + size)
        if np.any(cs < lo * size - tl) or np.any(cs > hi * size + tl):
            bad.add('storage', f'{L}: charge state {cs} outside {lo * size}..{hi * size}')
        init = c.get('init', 0)
        if init == 'lastValueOfSim':
            if abs(cs[0] - cs[n]) > tl: bad.add('storage', f'{L}: not a closed cycle: {cs}')
        elif init is not None and abs(cs[0] - init) > tl:
            bad.add('storage', f'{L}: initial charge state {cs[0]} expected {init}')
        if c.get('fmin') is not None and cs[n] < c['fmin'] - tl: bad.add('storage', f'{L}: final charge state {cs[n]} < {c["fmin"]}')
        if c.get('fmax') is not None and cs[n] > c['fmax'] + tl: bad.add('storage', f'{L}: final charge state {cs[n]} > {c["fmax"]}')
    if c['kind'] == 'trans':
        rel, ab = vec(c.get('rel'), n, 0.0), vec(c.get('abs'), n, 0.0)
        for i, o in (('in1', 'out1'), ('in2', 'out2')):
            if c.get(i) is None:
                continue
            a, b = r[c[i]['label']], r[c[o]['label']]
            e = a * (1 - rel) - ab * (a > onthr) - b
            if np.any(np.abs(e) > 10 * tol * (1 + np.abs(a) + np.abs(b))):
                bad.add('trans', f'{L}: {i}->{o}: in {a} out {b} rel {rel} abs {ab}')
        if c.get('in2') is not None and isinstance(c['in1'].get('size'), dict):
            a, b = (float(cr[c[i]['label']]['Investment']['size']) for i in ('in1', 'in2'))
            if abs(a - b) > 10 * tol * (1 + a): bad.add('trans', f'{L}: sizes differ {a} {b}')


def ev(e, x):
    return sum(v * (1.0 if k is None else x[k]) for k, v in e.items())


def effects(bad, spec, rf, x, res, exs, dt, n, tol):
    es = {e['label']: e for e in spec['effects']}
    E = res['Effects']
    try:
        rep_inv = {e: float(E[e]['invest']['invest_sum']) for e in es}
        rep_op = {e: np.array(E[e]['operation']['operation_sum_TS'], float) for e in es}
        rep_os = {e: float(E[e]['operation']['operation_sum']) for e in es}
        rep_all = {e: float(E[e]['all']['all_sum']) for e in es}
        pen = float(E['penalty']['penalty_sum'])
    except KeyError as k:
        bad.add('effects', f'effect results missing: {k}'); return
    # invest with piecewise costs: every admissible reading
    opts = []
    for s, b, segs, cv, costs in rf.segv:
        if s not in x:
            return
        size = x[s]
        if b is not None and round(x.get(b, 0)) == 0:
            opts.append([{cv[e]: 0.0 for e in cv}]); continue
        cand = []
        for k, (p, q) in enumerate(segs):
            tl = 1e-5 * (1 + abs(p) + abs(q))
            if abs(p - q) < 1e-12:
                if abs(size - p) > tl: continue
                # a size point: any of the costs between the two ends
                ws = [0.0, 1.0]
            else:
                w = (size - p) / (q - p)
                if w < -1e-5 or w > 1 + 1e-5: continue
                ws = [min(1, max(0, w))]
            for w in ws:
                cand.append({cv[e]: costs[e][k][0] + w * (costs[e][k][1] - costs[e][k][0]) for e in cv})
        if not cand:
            bad.add('seg', f'size {size} is on no cost segment {segs}'); return
        opts.append(cand)
    best = None
    order = topo(es, 'share_inv')
    for combo in itertools.product(*opts):
        y = dict(x)
        for d in combo: y.update(d)
        try:
            inv = {}
            for e in order:
                inv[e] = ev(rf.ivc[e], y) + sum(inv[o] * float(R.raw(es[o]['share_inv'][e])) for o in es if e in (es[o].get('share_inv') or {}))
        except KeyError:
            return
        d = max(abs(inv[e] - rep_inv[e]) / (1 + abs(inv[e])) for e in es)
        if best is None or d < best[0]:
            best = (d, inv)
    inv = best[1]
    segcat = 'seg' if rf.segv else 'effects'
    for e in es:
        if abs(inv[e] - rep_inv[e]) > 2e-5 * (1 + abs(inv[e])):
            bad.add(segcat, f'effect {e}: invest total {rep_inv[e]} recomputed {inv[e]}')
            bad.add('effects', f'effect {e}: invest total {rep_inv[e]} recomputed {inv[e]}')
    op, mag = {}, {}
    for e in topo(es, 'share_op'):
        try:
            own = np.array([ev(rf.op[e][t], x) for t in range(n)])
            m = np.array([sum(abs(v * (1.0 if k is None else x[k])) for k, v in rf.op[e][t].items()) for t in range(n)])
        except KeyError:
            return
        for o in es:
            so = es[o].get('share_op') or {}
            if e in so:
                own = own + op[o] * vec(so[e], n)
                m = m + mag[o] * np.abs(vec(so[e], n))
        op[e], mag[e] = own, m
    for e in es:
        if rep_op[e].shape != (n,):
            bad.add('effects', f'effect {e}: operation series shape'); continue
        tl = 20 * tol * (1 + mag[e])
        if np.any(np.abs(rep_op[e] - op[e]) > tl):
            bad.add('effects', f'effect {e}: operation {rep_op[e]} recomputed {op[e]}')
        if abs(rep_os[e] - op[e].sum()) > tl.sum():
            bad.add('effects', f'effect {e}: operation total {rep_os[e]} recomputed {op[e].sum()}')
        tot = op[e].sum() + inv[e]
        if abs(rep_all[e] - tot) > tl.sum() + 2e-5 * (1 + abs(inv[e])):
            bad.add('effects', f'effect {e}: total {rep_all[e]} recomputed {tot}')
        d = es[e]
        q = tl.sum() + 2e-5 * (1 + abs(inv[e]))
        for a, v in (('op', op[e].sum()), ('inv', inv[e]), ('tot', tot)):
            if d.get('min_' + a) is not None and v < d['min_' + a] - q: bad.add('limits', f'effect {e}: {a} {v} < {d["min_" + a]}')
            if d.get('max_' + a) is not None and v > d['max_' + a] + q: bad.add('limits', f'effect {e}: {a} {v} > {d["max_" + a]}')
        a, b = vec(d.get('min_ph'), n), vec(d.get('max_ph'), n)
        if a is not None and np.any(op[e] < a * dt - tl): bad.add('limits', f'effect {e}: per hour {op[e] / dt} < {a}')
        if b is not None and np.any(op[e] > b * dt + tl): bad.add('limits', f'effect {e}: per hour {op[e] / dt} > {b}')
    ptl = 1e-5 * (1 + abs(exs))
    if abs(pen - exs) > ptl:
        bad.add('balance', f'penalty {pen} recomputed {exs}')
    o = rf.obj
    want = op[o].sum() + inv[o] + exs
    got = float(np.asarray(res['Objective'])) if 'Objective' in res else None
    if got is None or abs(got - want) > (20 * tol * (1 + mag[o])).sum() + 2e-5 * (1 + abs(inv[o])) + ptl:
        bad.add('effects', f'objective {got} recomputed {want}')
        if exs > 0:
            bad.add('balance', f'objective {got} recomputed {want} (with penalty {exs})')


def topo(es, key):
    out, todo = [], list(es)
    while todo:
        for e in todo:
            if all(o in out for o in es if e in (es[o].get(key) or {})):
                out.append(e); todo.remove(e); break
        else:
            raise ValueError('circular')
    return out
