import numpy as np
from .plan import PlanCheck, flows, rate


class Check(PlanCheck):
    id = 'C11'
    rule = ('random systems mixing all element kinds and options, solved by flixOpt (a tenth through its own HighsSolver) '
            'and as the reference MILP; feasibility and optimum must agree and the plan must satisfy every oracle '
            'category; non-trivial: both agree on a plan with non-zero objective')
    profiles = [dict(extra=(1, 4), buses=(1, 3)),
                dict(onoff=35, con_onoff=25, dur=25, invest=25, prev=30, extra=(1, 3), cap_invest=25, inv_seg=20),
                dict(effects=70, invest=30, onoff=25, fh=20, lf=15, limits=0, extra=(1, 3), tr_inv=40,
                     kinds=dict(source=1, sink=1, conv=2, named=2, storage=2, trans=2, sas=2, seg=2, comp=2)),
                dict(n=(6, 12), extra=(1, 3), irreg=50)]
    quick, thorough = 3600, 80000
    real_share = 0.12

    def interesting(self, spec, res, ctx):
        for c in spec['comps']: ctx.tag('kind:' + c['kind'])
        return abs(float(res['Objective'])) > 1e-6

    def interesting_infeasible(self, spec, ctx):
        return True
