import numpy as np
from .plan import PlanCheck, flows, rate


class Check(PlanCheck):
    id = 'C08'
    rule = ('random systems with investments on flows, storage capacities and transmissions (fixed or ranged, optional or '
            'not, fix/specific/divest/segmented effects, with on/off, profiles, load factors), against the reference '
            'MILP; sizes, decisions and effects recomputed; non-trivial: a plan with at least one investment decision')
    profiles = [dict(invest=75, inv_profile=30, lf=15, effects=40, extra=(0, 3), kinds=dict(source=3, sink=2, conv=2)),
                dict(invest=40, cap_invest=90, kinds=dict(storage=4, source=1), st_noprevent=60, st_bounds=50, st_final=30, extra=(1, 3)),
                dict(invest=60, onoff=50, wide=15, rmin=40, inv_profile=40, div=50, extra=(0, 2)),
                dict(invest=50, tr_inv=90, kinds=dict(trans=3, source=1), buses=(2, 3), extra=(1, 2), div=40)]
    cats = ('struct', 'invest')
    quick, thorough = 3600, 60000

    def interesting(self, spec, res, ctx):
        hit = False
        for c, f in flows(spec):
            if isinstance(f.get('size'), dict):
                s = f['size']
                ctx.tag('optional' if s.get('optional') else 'mandatory', 'fixed' if s.get('fixed') is not None else 'ranged')
                hit = True
        for c in spec['comps']:
            if c['kind'] == 'storage' and isinstance(c['cap'], dict):
                ctx.tag('capacity'); hit = True
        return hit

    def interesting_infeasible(self, spec, ctx):
        return any(isinstance(f.get('size'), dict) for _, f in flows(spec))
