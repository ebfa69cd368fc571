#!/usr/bin/env python3
"""Write MANIFEST.json from the rule registry and the list of properties."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from rules.registry import RULES, TECH          # noqa: E402

NA = {}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'), encoding='utf-8')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in RULES:
        checks.append({
            'property': i, 'quick_cmd': f"python3 bin/check.py {i}",
            'thorough_cmd': f"python3 bin/check.py {i} --tier thorough",
            'technique': TECH[i][0], 'level': 'other', 'level_note': TECH[i][1]})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check yet')})
man = {'version': 1, 'setup_cmd': 'python3 -m compileall -q sa rules bin >/dev/null || true', 'checks': checks,
       'not_applicable': na,
       'notes': 'Every check parses the current source of /repo on each run; nothing of the repository is imported or run.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w', encoding='utf-8') as fh:
    json.dump(man, fh, indent=1)
    fh.write('\n')
