#!/usr/bin/env python3
"""Write /verif/MANIFEST.json from the properties and the rules that exist."""
import json
import os
import sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from msv import rules
from tools.techniques import TECH, NA
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in rules.RULES:
        t, note = TECH[i]
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s' % i, 'thorough_cmd': 'python3 check.py %s --thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': t, 'level': 'other', 'level_note': note})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check built yet')})
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': checks, 'not_applicable': na,
     'notes': 'All checks are static analyses of the MIR of /repo\'s current tree; /repo is never executed. No hooks are used.'}
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
