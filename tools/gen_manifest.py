#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, the check modules present and the notes below."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
TECH = {}
exec(open(H + '/tools/techniques.py').read())
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(f'{H}/vf/checks/{i.lower()}.py') and i in TECH:
        t, note = TECH[i]
        checks.append(dict(property=i, quick_cmd=f'python3 run.py {i} --tier quick', thorough_cmd=f'python3 run.py {i} --tier thorough',
                           evidence_file=f'evidence/{i}.json', technique=t, level='exploration', level_note=note))
    else:
        na.append(dict(property=i, reason='check not built yet'))
m = dict(version=1, setup_cmd='python3 -c "import sys; sys.exit(0)"', checks=checks, not_applicable=na,
         notes='Every check rebuilds the C backend from /repo into a scratch directory, imports the Python package from /repo and runs Hypothesis-generated cases against independent oracles; see DESIGN.md.')
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
