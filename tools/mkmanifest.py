#!/usr/bin/env python3
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from levels import LEVELS, NOTES, TECH, NA
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks = []
for p in props:
    i = p['id']
    if i in NA: continue
    c = {'property': i, 'quick_cmd': f'python3 tools/check.py {i} quick', 'thorough_cmd': f'python3 tools/check.py {i} thorough', 'evidence_file': f'evidence/{i}.json',
         'technique': TECH[i], 'level': LEVELS[i], 'level_note': NOTES[i]}
    checks.append(c)
m = {'version': 1, 'setup_cmd': 'bash tools/setup.sh', 'checks': checks,
     'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()],
     'notes': 'No hooks in /repo: the contracts are attached to a mechanical extraction of /repo/src made on every run. See DESIGN.md.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
