#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []      # properties
CHECKS = [] # claimed
NA = []     # not applicable

def prop(id, title, statement, over, text, tests, files, mech):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=tests,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))

def check(id, technique, note):
    CHECKS.append(dict(property=id, quick_cmd=f'./check.sh {id} quick',
        thorough_cmd=f'./check.sh {id} thorough', technique=technique, level='other', level_note=note))

def na(id, reason):
    NA.append(dict(property=id, reason=reason))

exec(open(os.path.join(root, 'tools', 'table.py')).read())

with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
with open(os.path.join(root, 'MANIFEST.json'), 'w') as f:
    json.dump(dict(version=1, setup_cmd='./setup.sh', checks=CHECKS, not_applicable=NA,
        notes='One static analyzer (engine/) decides every property from the type-checked SSA form of /repo on each run; see DESIGN.md.'), f, indent=1)
    f.write('\n')
