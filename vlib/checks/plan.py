"""Base of the checks that solve a generated system and compare plan, feasibility and optimum with the reference."""
import random
from hypothesis import strategies as st
from .. import sut, gen, ref as R, oracle
from ..run import Skip

ALLCATS = ('struct', 'time', 'flow', 'invest', 'onoff', 'dur', 'balance', 'conv', 'seg', 'storage', 'excl', 'trans',
           'effects', 'limits')
LOOSE = ('struct', 'time', 'balance', 'conv', 'storage')


@st.composite
def mixed(draw, profiles):
    """systems of the profiles; in a small share of them one or two steps, many steps or many components"""
    p, r = draw(st.sampled_from(profiles)), draw(st.integers(0, 99))
    if r >= 97: p = {**p, 'n': (10, 30), 'extra': (0, 2)}
    elif r >= 94: p = {**p, 'n': (2, 2)}
    elif r >= 91: p = {**p, 'n': (2, 4), 'extra': (3, 7)}
    return draw(gen.specs(**p))


class PlanCheck:
    id = None
    rule = ''
    quick, thorough = 800, 60000
    profiles = [{}]
    cats = ALLCATS
    use_opt = True           # compare feasibility and optimum with the reference
    real_share = 0.08        # share of the cases solved through flixOpt's own HighsSolver
    assumptions = ['the optimum of the reference model is computed by HiGHS (retried with other settings on any '
                   'disagreement)', 'systems of 2-8 steps (thorough: up to 20), 1-4 buses, 3-9 components']

    def strategy(self, tier):
        ps = list(self.profiles)
        if tier == 'thorough':      # also longer horizons and larger systems
            ps += [{**p, **b} for p in self.profiles for b in ({'n': (2, 8), 'extra': (0, 5)}, {'n': (8, 20), 'extra': (1, 6)})]
        return mixed(ps)

    def prep(self, case):
        return case

    def run(self, case, ctx):
        spec = self.prep(case)
        if spec is None:
            ctx.tag('unusable'); return []
        return self.run_spec(spec, ctx)

    def run_spec(self, spec, ctx):
        real = (sut.h8(spec) % 1000) < 1000 * self.real_share
        out = sut.solve_spec(spec, 'real' if real else 'direct')
        rf = R.Ref(spec)
        r = rf.solve()
        if out.status == 'trouble' and not r.ok:
            raise Skip('solver')
        ctx.tag('plan' if out.status == 'optimal' else out.status, 'own_highs_solver' if real else 'direct_highs')
        bad = []
        if self.use_opt:
            # solve order matters: results must be taken before solving again
            res = out.res
            m = sut.differ(out, rf, r, ctx, 2e-4 if real else 2e-6)
            if m:
                bad.append(('optimum', m))
        elif out.status == 'infeasible' and r.ok:
            m = sut.differ(out, rf, r, ctx, 1e9)
            if m:
                bad.append(('feasibility', m))
        if out.status == 'optimal':
            cats, kw = self.cats, {}
            if real and any(rf.lp.integ):
                # flixOpt's own solver settings allow binaries to be off by 1e-6: states are then judged by the
                # optimum only, everything else with room for it
                cats, kw = [c for c in cats if c in LOOSE], dict(tol=1e-4, onthr=2e-3)
                if not sut.same(out.status, out.obj, r.status, r.obj, 1e-5):
                    cats = []
            b = oracle.check(spec, out.res, ref=rf, **kw)
            bad += [x for x in b if x[0] in cats]
            ctx.nontrivial = bool(self.interesting(spec, out.res, ctx))
        elif r.status == 'infeasible' and self.use_opt:
            ctx.nontrivial = bool(self.interesting_infeasible(spec, ctx))
        return bad

    def interesting(self, spec, res, ctx):
        return True

    def interesting_infeasible(self, spec, ctx):
        return False

    def matches_known(self, k, case, bad):
        return False


def flows(spec):
    for c in spec['comps']:
        a, b = R.flows_of(c)
        for f in a + b:
            yield c, f


def rate(res, c, f):
    return res['Components'][c['label']][f['label']]['flow_rate']
