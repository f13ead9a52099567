import copy
import numpy as np
from hypothesis import strategies as st
from .plan import PlanCheck
from .. import gen, ref as R, hs

KINDS = ('min_op', 'max_op', 'min_inv', 'max_inv', 'min_tot', 'max_tot', 'min_ph', 'max_ph', 'min_ph', 'max_ph')
FR = (0.15, 0.35, 0.5, 0.75, 0.9, 1.2, -0.25)


def extreme(rf, expr, sense, cap=1e5):
    """optimum of an expression over the described problem (sense +1: minimum, -1: maximum); None if unbounded"""
    lp = rf.lp
    c, o = lp.c, lp.offset
    lp.c, lp.offset = [0.0] * len(c), 0.0
    for k, v in expr.items():
        lp.c[k] += sense * v
    try:
        r = hs.solve(lp, time_limit=10)
    finally:
        lp.c, lp.offset = c, o
    if not r.ok:
        return None
    v = sense * r.obj
    return v if abs(v) < cap else None


def put(v0, ext, frac, kind):
    s = 1.0 if kind.startswith('min') else -1.0
    rng = abs(ext - v0) if ext is not None else 10 + abs(v0)
    if rng < 1e-3:
        return v0 + s * (1.0 if frac > 0.6 else -1.0)
    return v0 + s * frac * rng


def zero(v0, ext, frac, kind):
    """a limit of exactly 0 where it can be met and binds"""
    if frac in (0.35, 0.5, 0.9, 1.2) and ext is not None:
        if kind.startswith('max') and ext <= 1e-9 and v0 > 1e-3: return 0
        if kind.startswith('min') and ext >= -1e-9 and v0 < -1e-3: return 0.0
    return put(v0, ext, frac, kind)


class Check(PlanCheck):
    id = 'C10'
    rule = ('random systems; for each generated limit the reference computes the value of that effect quantity in the '
            'unlimited optimum and its extreme over all plans, and the limit is put at a drawn fraction between them '
            '(also beyond the extreme: infeasible, and on the slack side); the limited system is compared with the '
            'limited reference MILP and all limits recomputed; non-trivial: limits change the optimum or make the system '
            'infeasible')
    profiles = [dict(effects=70, share=50, arr=50, irreg=60, extra=(0, 3), objother=10, invest=20),
                dict(effects=70, effect_neg=45, invest=60, div=40, cap_invest=40, share=50, extra=(0, 2), kinds=dict(source=3, storage=1, conv=1)),
                dict(effects=80, onoff=30, starts=60, effect_neg=30, irreg=60, extra=(0, 2))]
    cats = ('struct', 'limits')
    quick, thorough = 3000, 50000
    assumptions = PlanCheck.assumptions + ['limits lie a fraction away from the border of feasibility']

    def strategy(self, tier):
        lim = st.tuples(st.integers(0, 2), st.sampled_from(KINDS), st.sampled_from(FR), st.booleans(), st.booleans())
        return st.tuples(super().strategy(tier), st.lists(lim, min_size=1, max_size=3)).map(list)

    def prep(self, case):
        spec, lims = copy.deepcopy(case[0]), case[1]
        rf = R.Ref(spec)
        r = rf.solve()
        if not r.ok:
            return None
        n, dt = rf.n, rf.dt
        for ei, kind, frac, arr, tsd in lims:
            e = spec['effects'][ei % len(spec['effects'])]
            L = e['label']
            sense = -1 if kind.startswith('min') else 1
            if kind in e:
                continue
            if kind.endswith('_ph'):
                v = np.array([r.x[i] for i in rf.V[L]]) / dt
                if arr:
                    val = []
                    for t in range(n):
                        x = extreme(rf, {rf.V[L][t]: 1 / dt[t]}, sense)
                        val.append(put(v[t], x, frac if frac < 1 or t == 0 else 0.5, kind))
                else:
                    t = int(np.argmin(v) if sense < 0 else np.argmax(v))
                    x = extreme(rf, {rf.V[L][t]: 1 / dt[t]}, sense)
                    val = zero(v[t], x, frac, kind)
                if tsd: val = {'tsd': val}
                e[kind] = val
                continue
            ex = {}
            if not kind.endswith('inv'):
                for i in rf.V[L]: ex[i] = 1.0
            if not kind.endswith('op'):
                ex[rf.I[L]] = 1.0
            v0 = sum(r.x[i] * k for i, k in ex.items())
            e[kind] = zero(v0, extreme(rf, ex, sense), frac, kind)
            if tsd and abs(e[kind]) > 5: e[kind] = int(round(e[kind]))
        self.base = (r.obj, [l[1] for l in lims])
        return spec

    def run(self, case, ctx):
        for l in case[1]: ctx.tag(l[1])
        return super().run(case, ctx)

    def interesting(self, spec, res, ctx):
        o = float(res['Objective'])
        if abs(o - self.base[0]) > 1e-4 * (1 + abs(o)):
            ctx.tag('binding')
            return True
        return False

    def interesting_infeasible(self, spec, ctx):
        return True
