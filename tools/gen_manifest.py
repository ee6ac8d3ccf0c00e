#!/usr/bin/env python3
"""Writes MANIFEST.json from contracts/levels.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from contracts.levels import LEVELS, NOT_APPLICABLE
checks = []
for p in sorted(LEVELS):
    if p in NOT_APPLICABLE:
        continue
    d = LEVELS[p]
    checks.append({'property': p, 'quick_cmd': './check %s' % p, 'thorough_cmd': './check %s --tier thorough' % p,
                   'technique': d['technique'], 'level': d['level'], 'level_note': d['note']})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks,
     'not_applicable': [{'property': p, 'reason': r} for p, r in sorted(NOT_APPLICABLE.items())],
     'notes': 'No hooks: /repo carries only fix: commits.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as fp:
    json.dump(m, fp, indent=1)
    fp.write('\n')
print(len(checks), 'checks')
