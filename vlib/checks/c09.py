import numpy as np
from .plan import PlanCheck, flows, rate


class Check(PlanCheck):
    id = 'C09'
    rule = ('random systems with 1-3 effects, operation and invest shares between them (also over two hops, scalar and '
            'per step), effects of flows, starts, running hours, investments and buses in every notation, against the '
            'reference MILP; all totals and per-step series recomputed; non-trivial: an effect other than zero together '
            'with a second effect, a share or an invest part')
    profiles = [dict(effects=95, share=75, objother=20, effdict=60, arr=50, irreg=50, extra=(0, 3)),
                dict(effects=90, share=60, onoff=40, con_onoff=25, starts=70, run=70, effdict=70, extra=(0, 2)),
                dict(effects=90, share=70, invest=45, div=50, cap_invest=40, effect_neg=30, extra=(0, 2)),
                dict(effects=60, objother=40, share=50, pen_arr=50, irreg=60)]
    cats = ('struct', 'effects')
    quick, thorough = 3600, 60000

    def interesting(self, spec, res, ctx):
        n2 = len(spec['effects'])
        ctx.tag(f'effects:{n2}')
        if any(e.get('share_op') for e in spec['effects']): ctx.tag('share_op')
        if any(e.get('share_inv') for e in spec['effects']): ctx.tag('share_inv')
        return n2 > 1 or any(isinstance(f.get('size'), dict) for _, f in flows(spec))
