import numpy as np
from .plan import PlanCheck, flows, rate


_L = dict(pen_none=3, rmin=4, lf=2, fh=2, rmax=10)      # few other limits: most systems have a plan


class Check(PlanCheck):
    id = 'C03'
    rule = ('random systems dominated by LinearConverters (1-3 inputs/outputs, 1-3 equations, scalar/array/TimeSeriesData '
            'factors) and the six named converters, against the reference MILP and the recomputed equations; '
            'non-trivial: a converter carries flow in some step')
    profiles = [dict(drive=60, kinds=dict(conv=5, source=1, sink=1), arr=50, tsd=25, extra=(1, 4), buses=(1, 3), **_L),
                dict(drive=60, kinds=dict(named=6, source=1), arr=50, tsd=30, extra=(1, 4), buses=(1, 3), **_L),
                dict(drive=40, neg_fac=30, kinds=dict(conv=5, source=1), extra=(1, 2), arr=40, **_L),
                dict(drive=30, kinds=dict(named=3, conv=3), con_onoff=40, onoff=15, arr=40, extra=(1, 3), invest=15)]
    cats = ('struct', 'conv')
    quick, thorough = 3600, 60000
    kindset = ('conv', 'boiler', 'p2h', 'hp', 'hps', 'chp', 'ct')

    def interesting(self, spec, res, ctx):
        hit = False
        for c, f in flows(spec):
            if c['kind'] in self.kindset and not c.get('segs') and np.max(rate(res, c, f)) > 1e-3:
                ctx.tag('kind:' + c['kind']); hit = True
        return hit
