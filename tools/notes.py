_rnd = 'Random exploration within the stated generator, no proof. '
NOTE.update({
 'C13': ('generated time axes and data in every accepted form (Hypothesis), invariants and differential of windows against the sliced description',
         _rnd + 'Time axes of 1-12 steps in every resolution of datetime64, windows of indices, scalar/array/list forms; HiGHS trusted.'),
 'C14': ('metamorphic relations (renaming, order, representation, splitting steps, scaling) between generated descriptions (Hypothesis)',
         _rnd + 'Each relation compares two independent runs of flixOpt; HiGHS trusted, retried with other settings before a difference counts.'),
 'C16': ('generated systems calculated in segments (Hypothesis), each segment against the reference MILP of its window, independent merge of the results',
         _rnd + 'Horizons of 4-12 steps, every segment length and overlap; no investments (documented as unsupported there).'),
 'C17': ('generated aggregated calculations (Hypothesis), invariants of clusters and data, optimum against the reference MILP with the stated equalities',
         _rnd + 'The clustering itself (tsam) is taken as given, only its invariants are checked; horizons up to 12 steps.'),
 'C15': ('generated histories of calculations on one flow system (model-based), each compared with a freshly built system',
         _rnd + 'Histories of 2-6 calculations; results compared by value where the plan is the same model solved alike.'),
 'C18': ('round trip of generated calculations through their files (Hypothesis), tables against an independent oracle',
         _rnd + 'Full, windowed, segmented and aggregated calculations of small systems with odd labels and every resolution of time stamps.'),
 'C19': ('generated models in the modelling layer (Hypothesis), differential against the same model written out row by row in HiGHS',
         _rnd + 'Models of 1-4 variables of length 1-4 and up to 5 vector constraints; constants of the objective out of the domain.'),
 'C20': ('generated nested data, systems and models (Hypothesis); exports against a record of every constructor call, JSON/YAML round trips',
         _rnd + 'Control characters are left out (PyYAML itself does not bring them back); numbers are finite.'),
 'C21': ('generated valid descriptions with one injected contradiction (fault injection over Hypothesis systems), oracle: an error before a result',
         _rnd + 'Every listed contradiction is injected at generated places; the same description without it must be accepted.'),
 'C22': ('generated configuration trees and faults in them (Hypothesis) against an independent model of merge and validation',
         _rnd + 'Runs in a scratch process state that is restored after each case.'),
 'C23': ('generated tables (Hypothesis), figures and reshaped data against an independent expectation',
         _rnd + 'Plotly and matplotlib figures are inspected as objects, not as pixels.'),
 'C24': ('generated histories of calculations sharing solvers (stateful, Hypothesis); files before/after and the info file against results and model',
         _rnd + 'Histories of 1-4 calculations; the summary of a segmented calculation describes its first segment, as the code documents.'),
})
