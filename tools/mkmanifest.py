#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import levels
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
NA = {}
checks = []
for p in props:
    i = p['id']
    if i in NA:
        continue
    checks.append(dict(property=i, quick_cmd='python3 /verif/check.py %s' % i, thorough_cmd='python3 /verif/check.py %s --tier thorough' % i,
                       evidence_file='evidence/%s.json' % i,
                       technique='contracts on the real functions, weakest-precondition style obligations discharged by z3, refutations replayed on the real code',
                       level=levels.level(i), level_note=levels.note(i)))
json.dump(dict(version=1, setup_cmd='python3 /verif/tools/setup.py', checks=checks,
               not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
               notes='No hook in /repo. See DESIGN.md.'), open('/verif/MANIFEST.json', 'w'), indent=1)
