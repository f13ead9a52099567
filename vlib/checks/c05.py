import numpy as np
from .plan import PlanCheck


class Check(PlanCheck):
    id = 'C05'
    rule = ('random systems dominated by storages (bounds scalar/array, all initial/final modes, losses, efficiencies, '
            'capacity investment, unequal steps, with and without charge/discharge exclusion) against the reference '
            'MILP and a recomputation of every balance; non-trivial: a plan in which some storage changes its charge '
            'state')
    profiles = [dict(kinds=dict(source=2, sink=2, storage=6, conv=1), st_final=40, st_bounds=50, cap_invest=15, extra=(1, 3)),
                dict(kinds=dict(storage=4, sink=1), cap_invest=50, st_final=30, st_bounds=40, irreg=60, buses=(1, 2)),
                dict(kinds=dict(source=1, storage=4), st_init=100, st_final=60, irreg=50, buses=(1, 1), pen_none=40)]
    cats = ('struct', 'storage')
    quick, thorough = 3600, 60000

    def interesting(self, spec, res, ctx):
        hit = False
        for c in spec['comps']:
            if c['kind'] == 'storage':
                cs = np.atleast_1d(res['Components'][c['label']]['charge_state'])
                ctx.tag('init:' + type(c.get('init', 0)).__name__, 'cap:' + type(c['cap']).__name__)
                if cs.max() - cs.min() > 1e-4:
                    hit = True
        return hit
