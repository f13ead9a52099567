"""C15: histories of calculations on one flow system, each against the same calculation of a freshly built system."""
import copy
import numpy as np
from hypothesis import strategies as st
from .. import gen, sut, build, spectool, oracle, ref as R
from ..run import Skip
from . import c16
from .c20 import Recorder, snap
from .plan import ALLCATS

fx = sut.fx


def spec_without(spec, label):
    s = copy.deepcopy(spec)
    s['comps'] = [c for c in s['comps'] if c['label'] != label]
    used = {f['bus'] for _, f in spectool.all_flows(s)}
    s['buses'] = [b for b in s['buses'] if b['label'] in used]
    return s


def scalar_bounds(spec):
    """no time series of n+1 values: aggregation does not take them"""
    return spectool.map_values(spec, lambda v, extra, w: R.raw(v)[0] if extra and isinstance(R.raw(v), list) else v)


def varies(spec, a, b):
    out = []
    spectool.map_values(spec, lambda v, e, w: (out.append(1) if isinstance(R.raw(v), list) and len(set(R.raw(v)[a:b])) > 1 else None, v)[1])
    return bool(out)


class Calc:
    """one calculation of a history"""
    def __init__(self, op, k):
        self.op, self.k = op, k
        self.calc = self.status = self.res = self.snap = None

    def model(self, B):
        op = self.op
        a, b = op['win']
        idx = {} if op['all'] else {'time_indices': list(range(a, b)) if op['x'] % 2 else range(a, b)}
        if op['kind'] == 'seg':
            self.calc, self.status = c16.run_segmented(B.fs, op['L'], op['O'], None if op['all'] else idx['time_indices'], name=f'c{self.k}')
            return
        if op['kind'] == 'agg':
            np.random.seed(0)       # tsam's k-means starts at random; ties are then broken the same way
            self.calc = fx.AggregatedCalculation(f'c{self.k}', B.fs, op['par'](), **idx)
        else:
            self.calc = fx.FullCalculation(f'c{self.k}', B.fs, **idx)
        self.calc.do_modeling()

    def solve(self):
        if self.op['kind'] == 'seg':
            return
        for m in ('direct', 'nopre', 'loose'):
            self.status = sut.do_solve(self.calc, m)
            if self.status != 'trouble':
                break

    def results(self):
        if self.status != 'optimal':
            return
        if self.op['kind'] == 'seg':
            self.res = {'arrays': self.calc.results(combined_arrays=True), 'scalars': self.calc.results(combined_scalars=True),
                        'single': self.calc.results(individual_results=True)}
        else:
            self.res = self.calc.results()
        if self.snap is None:
            self.snap = copy.deepcopy(self.res)


def near(a, b, path, out, tol=1e-6):
    if isinstance(a, dict) or isinstance(b, dict):
        if not (isinstance(a, dict) and isinstance(b, dict)) or set(a) != set(b):
            out.append(f'{path}: {sorted(map(str, a)) if isinstance(a, dict) else a} expected {sorted(map(str, b)) if isinstance(b, dict) else b}')
            return
        for k in a:
            near(a[k], b[k], f'{path}/{k}', out, tol)
        return
    x, y = np.asarray(a), np.asarray(b)
    if x.shape != y.shape:
        out.append(f'{path}: {a} expected {b}')
    elif x.dtype.kind in 'fiub' and y.dtype.kind in 'fiub':
        if x.size and not np.all(np.abs(x.astype(float) - y.astype(float)) <= tol * (1 + np.abs(y.astype(float)))):
            out.append(f'{path}: {a} expected {b}')
    elif not np.array_equal(x, y):
        out.append(f'{path}: {a} expected {b}')


OP = st.fixed_dictionaries({'kind': st.sampled_from(['full', 'full', 'full', 'seg', 'agg', 'agg', 'edit', 'add', 'again']), 'all': st.integers(0, 2), 'a': st.integers(0, 9),
                            'b': st.integers(0, 9), 'x': st.integers(0, 9), 'y': st.integers(0, 9),
                            'delay': st.integers(0, 3), 'late': st.booleans()})


class Check:
    id = 'C15'
    rule = ('histories of 2-6 steps on one flow system: full, segmented and aggregated calculations of the whole horizon or a window, '
            'solved at once or after later ones were modelled, results read at once or at the end, changes of a price or a profile and '
            'added components in between; every calculation compared with the same one on a freshly built system of the description '
            'it was modelled with, results and passed data compared with their copies; non-trivial: at least two calculations reached a plan')
    assumptions = ['where values differ at equal optimum, the plan is judged by the independent oracle instead',
                   'HiGHS is retried with other settings before a difference counts']
    profiles = [dict(n=(5, 9), irreg=0, arr=70, tsd=30, extra=(1, 3), effects=35, share=50, last=0, prevdt=10),
                dict(n=(5, 9), irreg=0, arr=60, tsd=30, kinds=dict(storage=5, trans=2, sas=2, conv=2, seg=2, named=2), extra=(1, 3), last=0, st_bounds=40),
                dict(n=(5, 9), irreg=0, arr=60, onoff=50, con_onoff=25, dur=35, prev=30, extra=(0, 2), last=0, st_bounds=10),
                dict(n=(4, 8), irreg=40, arr=60, extra=(1, 3), onoff=25, effects=40, limits=20)]
    W = dict(grp=50, invest=0, cap_invest=0, tr_inv=0, inv_seg=0)
    INV = dict(grp=50, invest=35, cap_invest=35, tr_inv=30, inv_seg=20)
    quick, thorough = 800, 25000

    def strategy(self, tier):
        top = 7 if tier == 'thorough' else 6
        return st.one_of([st.tuples(gen.specs(**{**p, **(self.INV if inv else self.W)}), st.lists(OP, min_size=2, max_size=top)).map(list)
                          for p in self.profiles for inv in (False, True)])

    def plan(self, spec, ops):
        """[(kind, ...)] with everything that depends on the system filled in"""
        n = len(spec['time']['dt'])
        inv = bool(R_inv(spec))
        even = len(set(spec['time']['dt'])) == 1 and spec['time'].get('last') in (None, spec['time']['dt'][0])
        if any(o['kind'] == 'agg' for o in ops):
            spec = scalar_bounds(spec)
        out = []
        for o in ops:
            o = dict(o)
            lo = 4 if o['kind'] != 'full' else 2
            a = o['a'] % max(1, n - lo + 1)
            b = min(n, a + lo + o['b'] % max(1, n - a - lo + 1))
            o['all'] = o['all'] > 0
            if o['all']: a, b = 0, n
            o['win'] = (a, b)
            if o['kind'] == 'seg' and (inv or b - a < 4):
                o['kind'] = 'full'
            if o['kind'] == 'agg' and (not even or not varies(spec, a, b) or b - a < 4):
                o['kind'] = 'full'
            if o['kind'] == 'seg':
                o['L'] = 3 + o['x'] % (b - a - 3)
                o['O'] = o['y'] % (b - a - o['L'] + 1)
            if o['kind'] == 'agg':
                k = 2 + o['x'] % 2
                P = -(-(b - a) // k)
                h = spec['time']['dt'][0]
                o['par'] = lambda k=k, P=P, y=o['y'], h=h: fx.AggregationParameters(
                    hours_per_period=h * k, nr_of_periods=1 + y % P, fix_storage_flows=y < 7,
                    aggregate_data_and_fix_non_binary_vars=y % 3 > 0)
            out.append(o)
        return spec, out

    def run(self, case, ctx):
        spec, ops = self.plan(*copy.deepcopy(case))
        n = len(spec['time']['dt'])
        cur = spec
        held = None
        if any(o['kind'] == 'add' for o in ops) and len(spec['comps']) > 3:
            held = spec['comps'][-1]['label']
            cur = spec_without(spec, held)
        rec = Recorder([None])
        build.fx, old = rec, build.fx
        try:
            order = list(range(len(spec['effects']) + len(spec['comps']) - (1 if held else 0)))
            B = build.build(spec, order=order)
        finally:
            build.fx = old
        calcs, waiting, bad, kinds = [], [], [], []

        def passed(when):
            for o, cls, args, keep, sig, meta in rec.calls:
                for k, v in args.items():
                    if snap(v) != keep[k] and not bad:
                        bad.append(('passed', f'{cls.__name__} {k}: {v!r} was {keep[k]!r} ({when})'))

        for k, o in enumerate(ops):
            if o['kind'] == 'add':
                if held:
                    B.fs.add_elements(B.comps[held])
                    held, cur = None, restore(cur, spec, held)
                    kinds.append('add')
                continue
            if o['kind'] == 'edit':
                cur = self.edit(cur, B, o)
                kinds.append('edit')
                continue
            if o['kind'] == 'again':      # solved once more
                done = [c for c in calcs if c.op['kind'] != 'seg' and c.status == 'optimal']
                if done:
                    c = done[o['x'] % len(done)]
                    c.results()
                    c.solve()
                    kinds.append('again')
                continue
            if o['kind'] == 'agg' and not varies(cur, *o['win']):       # an edit left nothing to aggregate
                o = {**o, 'kind': 'full'}
            c = Calc(o, k)
            c.spec = cur
            c.model(B)
            calcs.append(c)
            kinds.append(o['kind'])
            for w in waiting:
                w.solve()
                if not w.op['late']: w.results()
            waiting = []
            if o['delay'] == 3 and o['kind'] != 'seg':
                waiting.append(c)
            else:
                c.solve()
                if not o['late']: c.results()
        for w in waiting:
            w.solve()
        for c in calcs:
            if c.res is None:
                c.results()
        ctx.tag(*kinds)
        passed('after the history')
        plans = 0
        for c in calcs:
            if bad: break
            what = f'calculation {c.k} ({c.op["kind"]} {c.op["win"]}) of {kinds}'
            if c.res is not None:
                plans += 1
                z = []
                near(c.res, c.snap, '', z, 0)
                again = c.calc.results(combined_arrays=True) if c.op['kind'] == 'seg' else c.calc.results()
                near(again, c.snap['arrays'] if c.op['kind'] == 'seg' else c.snap, '', z, 0)
                if z:
                    bad.append(('results', f'{what}: results obtained changed: {z[:2]}'))
                    break
            bad += self.compare(c, what, ctx)
        ctx.nontrivial = plans >= 2
        return bad[:4]

    def edit(self, cur, B, o):
        s = copy.deepcopy(cur)
        for c in s['comps']:
            if o['x'] % 2 and c['kind'] == 'source' and c['flow'].get('prof') is None:
                f = c['flow']
                new = 1.0 + o['y'] / 2
                f['eff'] = new if o['a'] % 2 else [new + (i % 3) for i in range(len(s['time']['dt']))]
                B.flows[c['label'], f['label']].effects_per_flow_hour = build.val(f['eff'])
                return s
            if not o['x'] % 2 and c['kind'] == 'sink' and c['flow'].get('prof') is not None:
                f = c['flow']
                p = R.vec(f['prof'], len(s['time']['dt']))
                f['prof'] = [float(x) for x in np.roll(p, 1 + o['y'] % 3)]
                B.flows[c['label'], f['label']].fixed_relative_profile = build.val(f['prof'])
                return s
        return s

    def compare(self, c, what, ctx):
        if c.status == 'trouble':
            ctx.tag('trouble')
            return []
        f = Calc(c.op, c.k)
        B = build.build(c.spec)
        f.model(B)
        f.solve()
        f.results()
        if f.status == 'trouble':
            ctx.tag('trouble')
            return []
        ctx.tag(f.status)
        z = []
        if f.status == c.status and f.status == 'optimal':
            near(c.res, f.res, '', z)
            if not z:
                return []
        elif f.status == c.status == 'infeasible':
            return []
        # another plan, or another answer: is it an answer of the same problem?
        a, b = c.op['win']
        ctx.tag('judged by the oracle')
        try:
            if c.op['kind'] == 'seg':
                bad = c16.check_segments(c.spec, a, b, c.op['L'], c.op['O'], c.calc, c.status, ctx, None)
                return [(x[0], f'{what}: {x[1]}') for x in bad]
        except c16.Stop:
            return []
        oc = float(c.res['Objective']) if c.res is not None else None
        of = float(f.res['Objective']) if f.res is not None else None
        if not sut.same(c.status, oc, f.status, of):
            alt = [(c.status, oc)] + [x[:2] for x in sut.resolve_again(c.calc, ('nopre', 'loose', 'direct'))]
            ref = [(f.status, of)] + [x[:2] for x in sut.resolve_again(f.calc, ('nopre', 'loose', 'direct'))]
            if any(sut.same(*x, *y, 6e-6) for x in alt for y in ref):
                ctx.tag('solver_settings_disagree')
                return []
            return [('again', f'{what}: {c.status} {oc}, on a fresh system {f.status} {of}')]
        shape = [x for x in z if 'expected' in x and keys_differ(c.res, f.res)]
        if shape:
            return [('again', f'{what}: {shape[0]}')]
        if c.op['kind'] == 'agg':
            return []
        sub = spectool.window(c.spec, a, b)
        return [(x[0], f'{what}: {x[1]}') for x in oracle.check(sub, c.res, ref=R.Ref(sub), tol=3e-6) if x[0] in ALLCATS]

    def matches_known(self, k, case, bad):
        return False


def keys_differ(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) != set(b) or any(keys_differ(a[k], b[k]) for k in a)
    return np.shape(a) != np.shape(b)


def restore(cur, spec, label):
    """the description with the component held back so far (and what was edited meanwhile)"""
    s = copy.deepcopy(cur)
    s['comps'].append(copy.deepcopy(next(c for c in spec['comps'] if c['label'] == label)))
    have = {b['label'] for b in s['buses']}
    s['buses'] += [copy.deepcopy(b) for b in spec['buses'] if b['label'] not in have]
    return s


def R_inv(spec):
    for c, f in spectool.all_flows(spec):
        if isinstance(f.get('size'), dict):
            return True
    return any(isinstance(c.get('cap'), dict) for c in spec['comps'])
