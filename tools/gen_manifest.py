#!/usr/bin/env python3
"""writes MANIFEST.json from the properties, the plans and the table below"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'lib'))
from plans import PLANS, ABOUT  # noqa: E402

ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, rest = [], []
for i in ids:
    if i in PLANS:
        technique, note = ABOUT[i]
        checks.append({
            'property': i,
            'quick_cmd': 'python3 check.py ' + i,
            'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + i,
            'technique': technique, 'level': 'exploration', 'level_note': note,
        })
    else:
        rest.append({'property': i, 'reason': 'check under construction'})
m = {
    'version': 1, 'setup_cmd': 'true',
    'hooks': {'guard': 'verif', 'enable': 'go build -tags verif', 'source_commits': ['7b1c973']},
    'checks': checks, 'not_applicable': rest,
}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks,', len(rest), 'not claimed')
