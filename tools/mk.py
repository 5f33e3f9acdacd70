#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from one table"""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = []
NA = {}
CLAIM = {}
def prop(id, title, statement, over, qtext, why, files, mech, claim=None, na=None):
    ALL.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why,
                'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}})
    if claim:
        CLAIM[id] = claim
    else:
        NA[id] = na
exec(open(os.path.join(R, 'tools', 'table.py')).read())
with open(os.path.join(R, 'properties.jsonl'), 'w') as f:
    for p in ALL:
        f.write(json.dumps(p) + '\n')
man = {'version': 1, 'setup_cmd': 'python3-vt tools/setup.py',
       'checks': [{'property': i, 'quick_cmd': 'python3-vt engine/check.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3-vt engine/check.py ' + i,
                   'technique': c.get('technique', 'contract-based deductive verification of the compiled functions (weakest-precondition style obligations from LLVM bitcode, SMT-discharged)'),
                   'level': c.get('level', 'proof'), 'level_note': c['note']} for i, c in CLAIM.items()],
       'hooks': {'guard': 'none', 'enable': 'no hooks: /repo is compiled as it is', 'source_commits': []},
       'not_applicable': [{'property': i, 'reason': r} for i, r in NA.items()]}
json.dump(man, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
print(len(ALL), 'properties,', len(CLAIM), 'claimed')
