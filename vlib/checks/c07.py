import numpy as np
from .plan import PlanCheck, flows, rate


class Check(PlanCheck):
    id = 'C07'
    rule = ('random systems with minimum/maximum consecutive on/off hours (scalar and per step), unequal step lengths, '
            'histories of 1-4 steps (scalar and list) and time-varying demands and prices, against the reference MILP '
            'with an explicit block formulation; all blocks recomputed; non-trivial: a plan with a limit and at least one '
            'state change, or limits that make the system infeasible')
    profiles = [dict(onoff=75, dur=55, prev=55, starts=40, irreg=45, prevdt=35, n=(3, 6), extra=(0, 1), arr=60),
                dict(onoff=20, con_onoff=75, dur=55, prev=60, starts=30, irreg=45, prevdt=35, n=(3, 6), extra=(1, 1), kinds=dict(conv=3, named=2, storage=1), arr=60),
                dict(onoff=75, dur=70, prev=70, irreg=0, n=(4, 7), extra=(0, 0), arr=70, starts=20),
                dict(onoff=60, con_onoff=30, dur=60, prev=40, n=(4, 6), extra=(0, 2), arr=60, run=60)]
    cats = ('struct', 'dur')
    quick, thorough = 3600, 60000
    K = ('con_min', 'con_max', 'coff_min', 'coff_max')

    def interesting(self, spec, res, ctx):
        hit = False
        for c, f in flows(spec):
            o = f.get('onoff') or c.get('onoff')
            if o and any(o.get(k) is not None for k in self.K):
                for k in self.K:
                    if o.get(k) is not None: ctx.tag(k)
                on = rate(res, c, f) > 1e-5
                if f.get('prev') is not None: ctx.tag('history')
                if np.any(on[1:] != on[:-1]):
                    hit = True
        return hit

    def interesting_infeasible(self, spec, ctx):
        return any((f.get('onoff') or c.get('onoff') or {}).get(k) is not None for c, f in flows(spec) for k in self.K)
