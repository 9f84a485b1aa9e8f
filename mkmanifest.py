#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (kept so that the levels stay in one place)."""
import json, os
P = [json.loads(l) for l in open(os.path.dirname(os.path.abspath(__file__)) + '/properties.jsonl')]
NA = {'C21': 'JavaScript front end: no contract-based deductive verifier for JavaScript is installed and the page logic is DOM/Worker glue with no pure function to extract; see DESIGN.md.'}
LEVEL = json.load(open(os.path.dirname(os.path.abspath(__file__)) + '/levels.json'))
checks = []
for p in P:
    i = p['id']
    if i in NA: continue
    lv, tech, note = LEVEL.get(i, ['exploration', 'contract postconditions evaluated on the real code (bounded)', 'Bounded: seeded generators, no proof yet.'])
    checks.append(dict(property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i,
                       technique=tech, level=lv, level_note=note))
m = dict(version=1, setup_cmd='bash setup/setup.sh', checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
         notes='No hooks in /repo: the machinery works on verbatim copies of the sources (access shims are appended to the copies).')
json.dump(m, open(os.path.dirname(os.path.abspath(__file__)) + '/MANIFEST.json', 'w'), indent=1)
