#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from the table in tools/props.py (one source for both)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NA
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS + NA:
        mech = [dict(name=a, where=b) for a, b in p['mech']]
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['st'], quantifier=dict(over=p['over'], text=p['q']),
                why_tests_cant=p['why'], anchors=dict(files=p['files'], mechanism=mech, hook_needed=None))) + '\n')
checks, na = [], []
for p in PROPS:
    if os.path.exists(os.path.join(V, 'checks', p['id'].lower() + '.py')):
        checks.append(dict(property=p['id'], quick_cmd='python3 check.py %s quick' % p['id'], thorough_cmd='python3 check.py %s thorough' % p['id'],
                           technique=p['tech'], level='other', level_note=p['note']))
    else:
        na.append(dict(property=p['id'], reason='no check has been built for it yet'))
for p in NA: na.append(dict(property=p['id'], reason=p['reason']))
json.dump(dict(version=1, setup_cmd='python3 setup.py', checks=checks, not_applicable=na,
     notes='No hooks: the checks analyse the LLVM IR of /repo\'s own sources, compiled into a build directory of /verif (ignored by git).'),
     open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
