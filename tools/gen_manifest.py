"""Writes MANIFEST.json from the checks that exist (python3 tools/gen_manifest.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    'plan': ('generated flow systems (Hypothesis), differential against an independent reference MILP and recomputed invariants', 
             'Random exploration of small systems: every generated system is solved by flixOpt and by an independently written '
             'MILP of the documented meaning; feasibility, optimum and the recomputed relations must agree. Trusts HiGHS '
             '(retried with other settings on disagreement) and the reference model; small horizons (2-12 steps).'),
}
NOTE = {}
exec(open(os.path.join(V, 'tools', 'notes.py')).read())
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'vlib', 'checks', i.lower() + '.py')):
        t, n = NOTE.get(i) or TECH['plan']
        checks.append({'property': i, 'quick_cmd': f'/opt/venv/bin/python check.py {i} --tier quick',
                       'thorough_cmd': f'/opt/venv/bin/python check.py {i} --tier thorough',
                       'evidence_file': f'evidence/{i}.json', 'technique': t, 'level': 'exploration', 'level_note': n})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': '/opt/venv/bin/python -B -c "import sys; sys.path.insert(0, \'/verif\'); from vlib import env; env.setup_path(); import hypothesis, highspy, pyomo, numpy"',
     'checks': checks, 'not_applicable': na,
     'notes': 'No hooks: the checks use the public interface of /repo only. Fixes of genuine defects are listed in known_findings.json and DESIGN.md.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', [x['property'] for x in na])
