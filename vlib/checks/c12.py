import numpy as np
from .plan import PlanCheck, flows, rate


class Check(PlanCheck):
    id = 'C12'
    rule = ('random systems dominated by transmissions (absolute/relative losses, one or two directions, shared '
            'investment) and by components with mutually exclusive flows (storage, source-and-sink, transmission '
            'directions, groups of 2-4 flows of a plain Component), exclusivity on and off, against the reference MILP; non-trivial: a transmission or an exclusive '
            'group carries flow')
    profiles = [dict(kinds=dict(trans=6, source=1, sink=1), buses=(2, 3), extra=(1, 3), arr=40, tr_onoff=25),
                dict(kinds=dict(sas=3, storage=2, comp=4, source=1), extra=(1, 3), buses=(1, 2), effect_neg=40, pen_none=5),
                dict(kinds=dict(trans=4, storage=1), buses=(2, 2), tr_bi=80, tr_inv=50, tr_abs=60, extra=(1, 2), onoff=15)]
    cats = ('struct', 'trans', 'excl')
    quick, thorough = 3600, 60000

    def interesting(self, spec, res, ctx):
        hit = False
        for c, f in flows(spec):
            if c['kind'] in ('trans', 'sas', 'storage', 'comp') and np.max(rate(res, c, f)) > 1e-3:
                ctx.tag('kind:' + c['kind']); hit = True
        return hit
