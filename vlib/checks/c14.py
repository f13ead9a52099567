import copy
import numpy as np
from hypothesis import strategies as st
from .plan import PlanCheck
from .. import gen, sut, ref as R, spectool, build
from ..run import Skip

NOTAT = ('scalar', 'array', 'tsd', 'tsdarr', 'intarr', 'npf', 'npi')
RW = ('notation', 'effects', 'order', 'labels', 'start', 'share', 'scale')
STARTS = ('2021-06-30T23:00', '1985-01-01T00:00', '2024-02-29T00:00', '2019-10-27T01:30', '2100-12-31T12:00')
NAMES = ('{} x', 'K-{}', '{}.a', 'W\u00e4rme{}', '{}', 'a{}b', '{}_c', '0{}', 'x ({})', '{}|y')


class Check(PlanCheck):
    id = 'C14'
    rule = ('random systems rewritten without changing their meaning: constants as scalar / array / integer array / '
            'TimeSeriesData / numpy scalar, effect values as scalar / {effect: v} / {None: v}, order of elements and flows, '
            'labels, calendar start, one parameter or data object shared by several flows, all costs scaled; flixOpt must '
            'give both the same feasibility and optimum; non-trivial: at least one rewriting changed the system and it has '
            'a plan with non-zero objective')
    profiles = [dict(extra=(1, 3), arr=25, tsd=10, effdict=40),
                dict(onoff=45, con_onoff=30, dur=25, prev=30, invest=30, extra=(0, 2), arr=20, effects=40),
                dict(kinds=dict(storage=3, trans=2, seg=2, sas=1, named=2), st_bounds=50, extra=(1, 2), cap_invest=30, inv_seg=20)]
    quick, thorough = 1600, 40000
    assumptions = ['both sides are flixOpt: an error common to every notation is the business of the other checks']

    def strategy(self, tier):
        rw = st.lists(st.sampled_from(RW), min_size=1, max_size=3, unique=True)
        seq = st.lists(st.integers(0, 6), min_size=12, max_size=12)
        return st.tuples(super().strategy(tier), rw, seq).map(list)

    # ------------------------------------------------------------------ rewritings
    def notation(self, s, nx):
        n = len(s['time']['dt'])

        def one(v, extra, where):
            x = R.raw(v)
            if isinstance(x, list):
                if len(set(x)) == 1 and nx() % 2:
                    x = x[0]
                else:
                    k = NOTAT[nx() % 7]
                    if where == 'seg':
                        return x
                    if k == 'intarr' and all(float(a).is_integer() for a in x): return {'intarr': [int(a) for a in x]}
                    return {'tsd': x} if k in ('tsd', 'tsdarr') else x
            k = NOTAT[nx() % 7]
            if where == 'seg':
                k = ('scalar', 'array', 'npf')[nx() % 3]
            if k == 'array': return [x] * (n + extra)
            if k == 'tsd': return {'tsd': x}
            if k == 'tsdarr': return {'tsd': [x] * (n + extra)}
            if k == 'intarr' and float(x).is_integer(): return {'intarr': [int(x)] * (n + extra)}
            if k == 'npf': return {'npf': float(x)}
            if k == 'npi' and float(x).is_integer() and where != 'abs': return {'npi': int(x)}
            if float(x).is_integer() and nx() % 2: return int(x) if nx() % 2 else float(x)
            return x
        return spectool.map_values(s, one)

    def effnot(self, s, nx):
        std = next(e['label'] for e in s['effects'] if e.get('std'))

        def ch(d, k):
            v = d.get(k)
            if v is None: return
            fxd = v['fx'] if isinstance(v, dict) and 'fx' in v else {'': v}
            out = {}
            for e, x in fxd.items():
                if e in ('', std): e = ('', std)[nx() % 2]
                out[e] = x
            d[k] = out[''] if list(out) == [''] and nx() % 2 else {**(v if isinstance(v, dict) and 'share' in v else {}), 'fx': out}
        for c, f in spectool.all_flows(s):
            ch(f, 'eff')
        for _, _, o in spectool.all_onoff(s):
            ch(o, 'sw'); ch(o, 'run')
        for p in self.invests(s):
            ch(p, 'fix'); ch(p, 'spec'); ch(p, 'div')
        return s

    def invests(self, s):
        for c, f in spectool.all_flows(s):
            if isinstance(f.get('size'), dict): yield f['size']
        for c in s['comps']:
            if isinstance(c.get('cap'), dict): yield c['cap']

    def relabel(self, s, nx):
        cm, fm, bm, em = {}, {}, {}, {}
        if nx() % 4 == 0:
            return self.recase(s, nx)
        for i, b in enumerate(s['buses']): bm[b['label']] = NAMES[nx()].format(f'b{i}')
        for i, c in enumerate(s['comps']): cm[c['label']] = NAMES[nx()].format(f'c{i}')
        for i, e in enumerate(s['effects']): em[e['label']] = NAMES[nx()].format(f'e{i}')
        same = nx() % 2
        for c in s['comps']:
            ins, outs = R.flows_of(c)
            m = {}
            for i, f in enumerate(ins + outs):
                m[f['label']] = f'f{i}' if same else NAMES[nx()].format(f'q{i}')
                f['label'], f['bus'] = m[f['label']], bm[f['bus']]
            c['label'] = cm[c['label']]
            if c.get('factors'): c['factors'] = [{m[a]: v for a, v in d.items()} for d in c['factors']]
            if c.get('excl'): c['excl'] = [m[a] for a in c['excl']]
            if c.get('segs'): c['segs'] = {m[a]: v for a, v in c['segs'].items()}
        for b in s['buses']: b['label'] = bm[b['label']]

        def ch(d, k):
            v = d.get(k)
            if isinstance(v, dict) and 'fx' in v: v['fx'] = {em.get(e, e): x for e, x in v['fx'].items()}
        for c, f in spectool.all_flows(s): ch(f, 'eff')
        for _, _, o in spectool.all_onoff(s): ch(o, 'sw'); ch(o, 'run')
        for p in self.invests(s):
            ch(p, 'fix'); ch(p, 'spec'); ch(p, 'div')
            if p.get('seg'): p['seg'][1] = {em[e]: v for e, v in p['seg'][1].items()}
        for e in s['effects']:
            for k in ('share_op', 'share_inv'):
                if e.get(k): e[k] = {em[x]: v for x, v in e[k].items()}
            e['label'] = em[e['label']]
        return s

    CASES = ('el', 'El', 'eL', 'EL', 'el ', ' el', 'EL ', 'e l', 'e-l', 'e_l', 'e.l', 'el.', '(el)', 'ÉL', 'él', 'e', 'ele', 'elel', 'el1', 'el10', 'el2')

    def recase(self, s, nx):
        """labels that are equal but for case, blanks, punctuation or a prefix"""
        i = nx() * 3
        els = s['comps'] + s['buses'] + s['effects']
        names = [self.CASES[(i + k) % len(self.CASES)] + (str(k) if k >= len(self.CASES) else '') for k in range(len(els))]
        nc, nb = len(s['comps']), len(s['comps']) + len(s['buses'])
        lab = [x['label'] for x in els]
        fl = {}
        for c in s['comps']:
            k = i if nx() % 2 else i + nx()
            for j, f in enumerate(sum(R.flows_of(c), [])):
                fl[c['label'], f['label']] = self.CASES[(k + j) % len(self.CASES)]
        return spectool.relabel(s, dict(zip(lab[:nc], names)), fl, dict(zip(lab[nc:nb], names[nc:])), dict(zip(lab[nb:], names[nb:])))

    def permute(self, s, nx):
        for c in s['comps']:
            if c['kind'] == 'conv':
                if nx() % 2: c['ins'] = c['ins'][::-1]
                if nx() % 2: c['outs'] = c['outs'][::-1]
                if nx() % 2 and c.get('factors'): c['factors'] = c['factors'][::-1]
        return s

    def share(self, s, nx):
        """base: parameters copied from one flow to others; variant: the same, as one shared object"""
        a = copy.deepcopy(s)
        fl = [f for _, f in spectool.all_flows(a) if f.get('size') is not None]
        oo = [f for f in fl if f.get('onoff') is not None]
        if oo:
            src = oo[nx() % len(oo)]
            for f in oo:
                if nx() % 2: f['onoff'] = copy.deepcopy(src['onoff'])
        # plain investments (no segments: they are bound to one size range)
        inv = [f for c, f in spectool.all_flows(a) if isinstance(f.get('size'), dict) and c['kind'] in ('source', 'sink', 'conv')]
        if inv:
            src = inv[nx() % len(inv)]
            for f in inv:
                if nx() % 2: f['size'] = copy.deepcopy(src['size'])
        ef = [f for _, f in spectool.all_flows(a) if isinstance(f.get('eff'), dict)]
        if ef:
            src = ef[nx() % len(ef)]
            for f in ef:
                if nx() % 2 and (f.get('size') is not None or src.get('size') is None): f['eff'] = copy.deepcopy(src['eff'])
        b = copy.deepcopy(a)
        ids = {}

        def tag(d):
            d['share'] = ids.setdefault(repr(d), len(ids))
        for _, f in spectool.all_flows(b):
            if isinstance(f.get('eff'), dict) and 'fx' in f['eff']: tag(f['eff'])
            if isinstance(f.get('size'), dict): tag(f['size'])
            if f.get('onoff') is not None: tag(f['onoff'])
        if nx() % 2:
            # equal time series as one array or TimeSeriesData object
            b = spectool.map_values(b, lambda v, e, w: {'one': repr(v), 'of': v} if isinstance(R.raw(v), list) and w != 'seg' else v)
        return a, b

    def scale(self, s, k):
        def sc(v):
            if isinstance(v, dict) and 'fx' in v: return {**v, 'fx': {e: sc(x) for e, x in v['fx'].items()}}
            if isinstance(v, dict) and 'one' in v: return {'one': f'{v["one"]} scaled', 'of': sc(v['of'])}
            if isinstance(v, dict): return {q: sc(x) if q in ('tsd', 'intarr') else x for q, x in v.items()}
            if isinstance(v, list): return [sc(x) for x in v]
            return v * k

        def on(d, *ks):
            for q in ks:
                if d.get(q) is not None: d[q] = sc(d[q])
        for _, f in spectool.all_flows(s): on(f, 'eff')
        for _, _, o in spectool.all_onoff(s): on(o, 'sw', 'run')
        for p in self.invests(s):
            on(p, 'fix', 'spec', 'div')
            if p.get('seg'): p['seg'][1] = {e: [[k * x, k * y] for x, y in v] for e, v in p['seg'][1].items()}
        for b in s['buses']: on(b, 'pen')
        for e in s['effects']: on(e, 'min_op', 'max_op', 'min_inv', 'max_inv', 'min_tot', 'max_tot', 'min_ph', 'max_ph')
        return s

    # ------------------------------------------------------------------ case
    def run(self, case, ctx):
        base, rws, seq = copy.deepcopy(case)
        pos = [0, sut.h8(case)]

        def nx():       # a reproducible stream made of the drawn numbers
            pos[0] += 1
            pos[1] = (pos[1] * 1103515245 + 12345 + seq[pos[0] % len(seq)]) % (1 << 31)
            return (pos[1] >> 8) % 7
        var, k, order = copy.deepcopy(base), 1.0, None
        if 'share' in rws:
            base, var = self.share(base, nx)
        if 'scale' in rws:
            k = (0.5, 2.0, 101.3, 0.25, 4.0, 1.5, 0.75)[nx()]
            var = self.scale(var, k)
        if 'notation' in rws: var = self.notation(var, nx)
        if 'effects' in rws: var = self.effnot(var, nx)
        if 'labels' in rws: var = self.relabel(var, nx)
        if 'start' in rws: var['time']['start'] = STARTS[nx() % 5]
        if 'order' in rws:
            var = self.permute(var, nx)
            m = len(var['effects']) + len(var['comps'])
            order = list(range(m))
            for i in range(m - 1, 0, -1):
                j = (nx() * 7 + nx()) % (i + 1)
                order[i], order[j] = order[j], order[i]
        a = sut.solve_spec(base)
        oa = [(a.status, a.obj)]
        b = sut.solve_spec(var, order=order)
        ob = [(b.status, b.obj)]
        for r in rws: ctx.tag(r)
        ctx.tag(a.status)
        ctx.nontrivial = (var != base or order is not None) and (a.status == 'infeasible' or abs(a.obj or 0) > 1e-6)

        def eq(x, y, tol):
            return sut.same(x[0], None if x[1] is None else x[1] * k, y[0], y[1], tol)
        if eq(oa[0], ob[0], 2e-6):
            return []
        oa += [q[:2] for q in sut.resolve_again(a.calc, ('nopre', 'loose'))]
        ob += [q[:2] for q in sut.resolve_again(b.calc, ('nopre', 'loose'))]
        if any(eq(x, y, 6e-6) for x in oa for y in ob):
            ctx.tag('solver_settings_disagree')
            return []
        if all(x[0] == 'trouble' for x in oa) or all(y[0] == 'trouble' for y in ob):
            raise Skip('solver')
        # which of the two is not the described optimum
        r = R.Ref(base).solve()
        return [('rewriting', f'{rws}: original {oa[0]}, rewritten {ob[0]} (cost factor {k}); described problem {r.status} {r.obj}')]
