import copy
import numpy as np
from hypothesis import strategies as st
from .plan import PlanCheck, ALLCATS, rate
from .. import gen, sut, ref as R, oracle, spectool, build, fast
from ..run import Skip

fx = sut.fx


class Stop(Exception):
    pass


def run_segmented(fs, L, O, idx=None, mode='direct', save=False, name='seg'):
    """(calc, status)"""
    kw = {} if idx is None else {'time_indices': idx}
    calc = fx.SegmentedCalculation(name, fs, L, O, **kw)
    solver = sut.real_solver() if mode == 'real' else sut.DH(tol=1e-7 if mode == 'loose' else 1e-9, presolve=mode != 'nopre')
    try:
        calc.do_modeling_and_solve(solver, save_results=save)
        return calc, 'optimal'
    except fast.NoPlan:
        return calc, 'infeasible'
    except fast.SolverTrouble:
        return calc, 'trouble'
    except RuntimeError as e:
        if 'feasible solution was not found' in str(e):
            return calc, 'infeasible'
        raise


def chain(spec, res, k):
    """start values of the successor: what the predecessor's results hold after its step k-1"""
    s = copy.deepcopy(spec)
    amb = False
    for c, f in spectool.all_flows(s):
        v = float(rate(res, c, f)[k - 1])
        f['prev'] = v
        amb = amb or 1e-8 < abs(v) < 2e-5
    for c in s['comps']:
        if c['kind'] == 'storage':
            c['init'] = float(np.atleast_1d(res['Components'][c['label']]['charge_state'])[k])
    return s, amb


def check_segments(spec, a, b, L, O, calc, status, ctx, B):
    """spec: whole system; window a..b of it was calculated in segments.  Returns list of violations."""
    bad = []
    total = b - a
    subs = calc.sub_calculations
    wins = []
    for i, sc in enumerate(subs):
        ix = [int(x) for x in sc.time_indices]
        if ix != list(range(ix[0], ix[-1] + 1)):
            bad.append(('segments', f'segment {i} is not contiguous: {ix}'))
        wins.append((ix[0], ix[-1] + 1))
    # ---- every step exactly once, right overlap
    for i, (x, y) in enumerate(wins):
        if x != a + i * L:
            bad.append(('segments', f'segment {i} starts at {x}, expected {a + i * L}'))
        # full length plus overlap, cut at the end of the horizon (a single remaining step belongs to the last segment)
        if y != min(x + L + O, b) and not (y == b and y - x <= L + 1):
            bad.append(('segments', f'segment {i} covers {x}..{y} of {a}..{b} (length {L}, overlap {O})'))
        if y < x + L and i < len(wins) - 1:
            bad.append(('segments', f'segment {i} covers {x}..{y} of {a}..{b} (length {L}, overlap {O})'))
    if status == 'optimal' and (not wins or wins[-1][1] != b):
        bad.append(('segments', f'steps {wins} of {a}..{b} calculated'))
    if bad:
        return bad
    # ---- each segment is the optimum of its window given the start values
    cur = spec
    results = []
    for i, (sc, (x, y)) in enumerate(zip(subs, wins)):
        sub = spectool.window(cur, x, y)
        rf = R.Ref(sub)
        r = rf.solve()
        failed = status == 'infeasible' and i == len(subs) - 1
        st_i = 'infeasible' if failed else 'optimal'
        res = None if failed else sc.results()
        o = sut.Out(st_i, None if failed else float(np.asarray(res['Objective'])), res, sc)
        same = sut.same(o.status, o.obj, r.status, r.obj)
        if not same:
            q = [rf.solve(presolve=False), rf.solve(tol=1e-7)]
            same = any(sut.same(o.status, o.obj, z.status, z.obj, 6e-6) for z in q)
            if not same and r.status == 'infeasible' or o.status == 'infeasible':
                # start values carry the solver's rounding: allow for it
                z = relaxed(sub)
                same = same or sut.same(o.status, o.obj, z.status, z.obj, 1e-4) and o.status == 'optimal'
        if not same:
            # another answer of the same model (numerics of the solver)?
            m = sut.differ(o, rf, r, ctx)
            if m is None:
                raise Stop()
            bad.append(('segments', f'segment {i} ({x}..{y}) with the start values of its predecessor: {m}'))
            return bad
        if failed:
            break
        for z in oracle.check(sub, res, tol=3e-6, ref=rf):
            bad.append((z[0], f'segment {i}: {z[1]}'))
        results.append(res)
        if bad:
            return bad
        if i + 1 < len(subs):
            cur, amb = chain(spec, res, L)
            if amb and any(True for _ in spectool.all_onoff(spec)):
                raise Stop()
            want = {**{f'{c["label"]}.{f["label"]}': f['prev'] for c, f in spectool.all_flows(cur)},
                    **{c['label']: c['init'] for c in cur['comps'] if c['kind'] == 'storage'}}
            got = calc.start_values_of_segments[subs[i + 1].name]
            if len(got) != len(want):
                bad.append(('start', f'start values of segment {i + 1}: {sorted(got)} expected {sorted(want)}'))
            gv = sorted(float(v) for v in got.values())
            if len(got) == len(want) and not np.allclose(gv, sorted(want.values()), atol=1e-9):
                bad.append(('start', f'start values of segment {i + 1}: {got} expected {want}'))
    if status == 'optimal':
        bad += check_combined(spec, a, b, L, calc, results)
    return bad


def relaxed(sub):
    s = copy.deepcopy(sub)
    rf = R.Ref(s)
    lp = rf.lp
    lp.rows = [(e, lo - 1e-6, hi + 1e-6, nm) for e, lo, hi, nm in lp.rows]
    lp.lb = [x - (1e-6 if not g else 0) for x, g in zip(lp.lb, lp.integ)]
    lp.ub = [x + (1e-6 if not g else 0) for x, g in zip(lp.ub, lp.integ)]
    return rf.solve()


def merge(path, vals, L):
    """independent combination of nested results: arrays concatenated (predecessors cut to L), scalars listed"""
    if all(isinstance(v, dict) for v in vals):
        A, S = {}, {}
        for k in vals[0]:
            a, s = merge(path + [k], [v[k] for v in vals], L)
            if a is not None: A[k] = a
            if s is not None: S[k] = s
        return (A or None), (S or None)
    if all(isinstance(v, np.ndarray) and v.ndim > 0 for v in vals):
        out = []
        for i, v in enumerate(vals):
            out.extend(list(v[:L]) if i < len(vals) - 1 else list(v))
        return np.array(out), None
    if all(np.isscalar(v) or (isinstance(v, np.ndarray) and v.ndim == 0) for v in vals):
        return None, [v for v in vals]
    return None, None


def compare(a, b, path, bad, what):
    if isinstance(a, dict) or isinstance(b, dict):
        if not (isinstance(a, dict) and isinstance(b, dict)) or set(a) != set(b):
            ka = set(a) if isinstance(a, dict) else type(a)
            kb = set(b) if isinstance(b, dict) else type(b)
            bad.append((what, f'{path}: {ka} expected {kb}'))
            return
        for k in a:
            compare(a[k], b[k], f'{path}/{k}', bad, what)
        return
    if not np.array_equal(np.asarray(a), np.asarray(b)):
        bad.append((what, f'{path}: {a} expected {b}'))


def check_combined(spec, a, b, L, calc, results):
    bad = []
    A, S = merge([], results, L)
    compare(calc.results(combined_arrays=True), A, '', bad, 'combined')
    compare(calc.results(combined_scalars=True), S, '', bad, 'combined')
    ind = calc.results(individual_results=True)
    if list(ind) != [s.name for s in calc.sub_calculations]:
        bad.append(('combined', f'individual results {list(ind)}'))
    if bad:
        return bad[:5]
    # the combined arrays form one gapless plan of the window
    com = calc.results(combined_arrays=True)
    sub = spectool.window(spec, a, b)
    n = b - a
    dt = np.array(sub['time']['dt'])
    t = spec['time']
    stamps = np.datetime64(t.get('start', '2020-01-01T00:00'), 's') + np.round(np.concatenate([[0], np.cumsum(t['dt'])]) * 3600).astype('timedelta64[s]')
    if not np.array_equal(np.array(com['Time']).astype('datetime64[s]'), stamps[a:b + 1]):
        bad.append(('combined', f'time {com["Time"]} expected {stamps[a:b + 1]}'))
    hours = com.get('Time intervals in hours')
    if hours is not None and not np.allclose(hours, dt):
        bad.append(('combined', f'step lengths {hours} expected {dt}'))
    for c, f in spectool.all_flows(sub):
        r = rate(com, c, f)
        if len(r) != n:
            bad.append(('combined', f'{c["label"]}.{f["label"]}: {len(r)} values for {n} steps'))
    if bad:
        return bad
    for c in sub['comps']:
        if c['kind'] != 'storage': continue
        cs = np.atleast_1d(com['Components'][c['label']]['charge_state'])
        if len(cs) != n + 1:
            bad.append(('combined', f'{c["label"]}: charge state of length {len(cs)} for {n} steps')); continue
        ch, di = rate(com, c, c['charging']), rate(com, c, c['discharging'])
        ec, ed, ls = R.vec(c.get('eta_c'), n, 1.0), R.vec(c.get('eta_d'), n, 1.0), R.vec(c.get('loss'), n, 0.0)
        e = cs[1:] - cs[:-1] * (1 - ls * dt) - ch * ec * dt + di / ed * dt
        if np.max(np.abs(e)) > 1e-5 * (1 + np.max(np.abs(cs))):
            bad.append(('combined', f'{c["label"]}: combined charge state {cs} does not follow from charging {ch} and discharging {di}'))
    return bad


class Check(PlanCheck):
    id = 'C16'
    rule = ('random systems (storages, on/off with durations, effects; no investments) of 4-12 steps calculated in '
            'segments of every length >= 3 and overlap, over the whole horizon or a window of time indices; each segment '
            'compared with the reference of its own window and the start values its predecessor reached, the combined '
            'results with an independent merge and the storage balance across the seams; non-trivial: at least two '
            'segments, or a failing segment')
    profiles = [dict(n=(5, 12), kinds=dict(source=1, sink=1, storage=5, conv=1), extra=(1, 2), st_bounds=40, arr=55, irreg=35),
                dict(n=(5, 10), onoff=50, con_onoff=25, dur=35, prev=40, arr=60, irreg=35, extra=(0, 2)),
                dict(n=(5, 12), effects=50, share=60, extra=(0, 3), kinds=dict(source=1, storage=2, conv=2, named=2, trans=1, sas=1))]
    W = dict(invest=0, cap_invest=0, tr_inv=0, inv_seg=0)
    quick, thorough = 2000, 30000

    def strategy(self, tier):
        ps = self.profiles * 4 + [dict(n=(13, 30), kinds=dict(source=1, storage=3, conv=1), extra=(0, 1), prev=30, onoff=20)]
        specs = st.one_of([gen.specs(**{**p, **self.W}) for p in ps])
        return st.tuples(specs, st.integers(0, 9), st.integers(0, 9), st.integers(0, 3), st.integers(0, 9),
                         st.integers(0, 9)).map(list)

    def run(self, case, ctx):
        spec, l, o, w, wa, wb = copy.deepcopy(case)
        n = len(spec['time']['dt'])
        a, b, idx = 0, n, None
        if w == 3 and n >= 5:
            a = wa % (n - 3)
            b = a + 4 + wb % (n - a - 3)
            idx = range(a, b) if wb % 2 else list(range(a, b))
        total = b - a
        L = 3 + (l % max(1, total - 4) if l < 8 else l % (total - 2))
        O = o % (total - L + 1)
        B = build.build(spec)
        orig = {k: copy.deepcopy(f.previous_flow_rate) for k, f in B.flows.items()}
        origs = {k: copy.deepcopy(c.initial_charge_state) for k, c in B.comps.items() if hasattr(c, 'initial_charge_state')}
        calc, status = run_segmented(B.fs, L, O, idx)
        bad = []
        for k, f in B.flows.items():
            if not np.array_equal(np.asarray(f.previous_flow_rate, object), np.asarray(orig[k], object)):
                bad.append(('restore', f'{k}: previous_flow_rate is {f.previous_flow_rate} afterwards, was {orig[k]}'))
        for k, c in B.comps.items():
            if k in origs and not (c.initial_charge_state is origs[k] or c.initial_charge_state == origs[k]):
                bad.append(('restore', f'{k}: initial_charge_state is {c.initial_charge_state} afterwards, was {origs[k]}'))
        ctx.tag(status, f'segments:{len(calc.sub_calculations)}', 'overlap' if O else 'no_overlap', 'window' if idx is not None else 'whole')
        if total % L: ctx.tag('short_last_segment')
        if status == 'trouble':
            raise Skip('solver')
        try:
            bad += check_segments(spec, a, b, L, O, calc, status, ctx, B)
        except Stop:
            ctx.tag('cut_short_by_numerics')
        ctx.nontrivial = len(calc.sub_calculations) > 1 or status == 'infeasible'
        return bad
