import numpy as np
from .plan import PlanCheck, flows, rate


class Check(PlanCheck):
    id = 'C02'
    rule = ('random flows with every combination of size, relative bounds, profile, flow hours and load factor limits, '
            'on/off and investment, against the reference MILP and recomputed limits; non-trivial: some limit of a flow '
            'is active in the plan, or the limits make the system infeasible')
    profiles = [dict(rmin=60, rmax=60, prof=15, fh=40, lf=30, extra=(1, 3), irreg=50, prevdt=0),
                dict(wide=15, rmin=50, rmax=50, fh=30, lf=30, onoff=45, invest=30, extra=(0, 2), irreg=40),
                dict(prof=40, inv_profile=60, invest=35, onoff=20, tsd=30, extra=(0, 2)),
                dict(fh=70, lf=60, irreg=80, extra=(0, 2), arr=60)]
    cats = ('struct', 'flow')
    quick, thorough = 3600, 60000

    def interesting(self, spec, res, ctx):
        hit = False
        dt = np.array(spec['time']['dt'])
        for c, f in flows(spec):
            r = rate(res, c, f)
            s = f.get('size')
            tot = float((r * dt).sum())
            for k in ('fh_min', 'fh_max'):
                if f.get(k) is not None:
                    ctx.tag(k)
                    if abs(tot - f[k]) < 1e-4 * (1 + abs(tot)):
                        ctx.tag(k + '_active'); hit = True
            for k in ('lf_min', 'lf_max', 'rmin', 'rmax', 'prof'):
                if f.get(k) is not None:
                    ctx.tag(k)
                    if np.max(r) > 1e-3:
                        hit = True
            if isinstance(s, (int, float)) and np.any(np.abs(r - s) < 1e-4):
                ctx.tag('at_size'); hit = True
        return hit

    def interesting_infeasible(self, spec, ctx):
        return any(f.get(k) is not None for _, f in flows(spec) for k in ('fh_min', 'lf_min', 'rmin', 'prof', 'rmax', 'fh_max'))
