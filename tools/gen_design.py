#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, properties.jsonl, contracts/levels.py, seeded/*/meta.json and tools/design_tail.md."""
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from contracts.levels import LEVELS
t = open(os.path.join(V, 'tools/design_head.md')).read()
t += ('## 3. Properties\n\nLevel "proof": every obligation is discharged on the unchanged tree for all inputs of the contract; the runtime '
      'contracts run beside it.\n"bounded": runtime contracts only (level "exploration" in MANIFEST.json); never counted as proved.\n\n'
      '| id | property | level | how it is decided, and within what limits |\n|---|---|---|---|\n')
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)
    d = LEVELS[p['id']]
    t += '| %s | %s | %s | %s |\n' % (p['id'], p['title'], 'proof' if d.get('proof') else 'bounded', d['note'].split('  Trusted:')[0].replace('|', '/'))
t += ('\nWhy the tests cannot settle them is stated per property in properties.jsonl (`why_tests_cant`): each quantifies over all sizes, '
      'orders, limits or histories.\n\n## 4. Planted bugs (seeded/) and what catches them\n\n'
      'Every one builds, passes the tests and is caught by the check of its property ("missed" where not).\n\n'
      '| id | property | what it breaks | needs | caught |\n|---|---|---|---|---|\n')
caught = json.load(open(os.path.join(V, 'tools/caught.json')))
for f in sorted(glob.glob(os.path.join(V, 'seeded/*/meta.json'))):
    m = json.load(open(f))
    i = os.path.basename(os.path.dirname(f))
    t += '| %s | %s | %s | %s | %s |\n' % (i, m['property'], m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/'), caught.get(i, 'not run'))
n = sum(l.startswith('fixed:') for l in open(os.path.join(V, 'known_findings.txt')))
t += open(os.path.join(V, 'tools/design_tail.md')).read().replace('{fixes}', str(n))
open(os.path.join(V, 'DESIGN.md'), 'w').write(t)
