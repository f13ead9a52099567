import numpy as np
from .plan import PlanCheck, flows, rate


class Check(PlanCheck):
    id = 'C06'
    rule = ('random systems with on/off parameters on flows and components (start and running effects, start and on-hour '
            'limits, histories before the first step), against the reference MILP; states, events and counts recomputed '
            'from the reported rates; non-trivial: some state changes within the horizon or differs from the state before')
    profiles = [dict(onoff=70, starts=60, run=50, on_tot=40, prev=40, irreg=40, extra=(0, 2), kinds=dict(source=2, sink=2, conv=2, storage=1)),
                dict(con_onoff=70, onoff=25, starts=60, on_tot=40, prev=50, extra=(1, 2), kinds=dict(conv=3, named=3, seg=1)),
                dict(onoff=60, con_onoff=40, invest=30, starts=60, prev=30, effects=50, extra=(0, 2)),
                dict(con_onoff=50, onoff=30, tr_onoff=60, kinds=dict(trans=3, storage=1, conv=1), extra=(1, 2))]
    cats = ('struct', 'onoff')
    quick, thorough = 3600, 60000

    def interesting(self, spec, res, ctx):
        hit = False
        for c, f in flows(spec):
            if f.get('onoff') is not None or c.get('onoff') is not None:
                on = rate(res, c, f) > 1e-5
                p = f.get('prev')
                p0 = (p[-1] if isinstance(p, list) else p) if p is not None else 0
                s = [bool(p0)] + [bool(v) for v in on]
                ch = sum(a != b for a, b in zip(s, s[1:]))
                ctx.tag(f'changes:{min(ch, 4)}')
                if p is not None: ctx.tag('history')
                hit = hit or ch > 0
        return hit
