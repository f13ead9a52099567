import numpy as np
from .plan import PlanCheck, flows, rate


class Check(PlanCheck):
    id = 'C04'
    rule = ('converters with 1-3 segments (gaps, points, time-varying bounds, descending flows, with and without on/off) '
            'and investments with segmented effects, against the reference MILP; every operating point located on one '
            'segment; non-trivial: the plan operates such a converter or buys such an investment')
    profiles = [dict(kinds=dict(seg=6, source=1, sink=1), extra=(1, 3), con_onoff=40, irreg=40),
                dict(invest=60, inv_seg=80, optional=50, cap_invest=60, effects=50, kinds=dict(source=2, storage=2, conv=2), extra=(1, 3)),
                dict(kinds=dict(seg=4, storage=1), invest=40, inv_seg=60, extra=(1, 2))]
    cats = ('struct', 'seg')
    quick, thorough = 3600, 60000

    def interesting(self, spec, res, ctx):
        hit = False
        for c, f in flows(spec):
            if c.get('segs') and np.max(rate(res, c, f)) > 1e-3:
                ctx.tag('converter_segments'); hit = True
            if isinstance(f.get('size'), dict) and f['size'].get('seg') and np.max(rate(res, c, f)) > 1e-3:
                ctx.tag('investment_segments'); hit = True
        for c in spec['comps']:
            if c['kind'] == 'storage' and isinstance(c['cap'], dict) and c['cap'].get('seg'):
                ctx.tag('capacity_segments'); hit = True
        return hit

    def interesting_infeasible(self, spec, ctx):
        return any(c.get('segs') for c in spec['comps'])
