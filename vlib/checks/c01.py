import numpy as np
from .plan import PlanCheck, flows, rate


class Check(PlanCheck):
    id = 'C01'
    rule = ('random systems with 1-4 buses, penalties none/scalar/array/0, converters and transmissions between them, '
            'compared with the reference MILP; every balance and the penalty recomputed from the reported rates; '
            'non-trivial: a plan in which a bus carries flow from or to at least three flows, or has excess')
    profiles = [dict(buses=(1, 4), extra=(2, 5), pen_none=35, pen_arr=40, irreg=50),
                dict(buses=(1, 3), pen_none=0, pen_arr=60, irreg=60, tsd=30, extra=(0, 2)),
                dict(buses=(2, 3), pen_none=50, onoff=25, invest=15, extra=(1, 3))]
    cats = ('struct', 'balance')
    quick, thorough = 3600, 60000

    def interesting(self, spec, res, ctx):
        hit = False
        nf = {}
        for c, f in flows(spec):
            if np.max(np.abs(rate(res, c, f))) > 1e-3:
                nf[f['bus']] = nf.get(f['bus'], 0) + 1
        for b in spec['buses']:
            ctx.tag('pen:none' if b['pen'] is None else 'pen:array' if isinstance(b['pen'], (list, dict)) else 'pen:scalar')
            e = res['Buses'].get(b['label'], {})
            ex = max([0.0] + [float(np.max(np.abs(v))) for k, v in e.items() if 'excess' in k])
            if ex > 1e-3:
                ctx.tag('excess'); hit = True
            if nf.get(b['label'], 0) >= 3:
                ctx.tag('three_flows'); hit = True
        return hit
