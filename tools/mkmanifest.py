#!/usr/bin/env python3
"""writes MANIFEST.json from the list of properties and the plan"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'vlib'))
from plan import PLAN, NOTES
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    n = NOTES.get(i)
    if not n:
        na.append(dict(property=i, reason='the check is still being built')); continue
    checks.append(dict(property=i, quick_cmd='python3 check.py ' + i, thorough_cmd='python3 check.py %s --thorough' % i,
                       technique=n[0], level=n[1], level_note=n[2]))
json.dump(dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
               notes='No hooks in /repo. See DESIGN.md.'), open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
