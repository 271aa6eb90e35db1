#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/props.py.

Only properties with a check (checks/cXX.py) are written."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from props import P, TECH  # noqa

checks, lines = [], []
for d, note in P:
    if not os.path.exists(f'{HERE}/checks/{d["id"].lower()}.py'):
        continue
    assert len(d['title']) <= 80, d['title']
    lines.append(json.dumps(d))
    checks.append(dict(
        property=d['id'], quick_cmd=f'./run_check.py {d["id"]} --tier quick',
        thorough_cmd=f'./run_check.py {d["id"]} --tier thorough',
        technique=TECH.get(d['id'], TECH['']), level='exploration',
        level_note=(note or 'Runtime monitoring: held on the observed '
                    'executions (counts in the evidence), no claim beyond '
                    'them.')))
with open(f'{HERE}/properties.jsonl', 'w') as f:
    f.write('\n'.join(lines) + '\n')
m = dict(version=1, setup_cmd='./setup.sh', checks=checks,
         not_applicable=[])
with open(f'{HERE}/MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks')
