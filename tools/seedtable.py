#!/usr/bin/env python3
"""usage: seedtable.py LOG: writes the table of planted bugs into DESIGN.md (LOG: lines "id property CAUGHT|MISSED [properties]")"""
import json, os, re, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for l in sorted(open(sys.argv[1])):
    m = re.match(r'(\S+) (\S+) (CAUGHT|MISSED) \[(.*)\]', l)
    if not m: continue
    meta = json.load(open(f'{root}/seeded/{m[1]}/meta.json'))
    by = m[4].split()
    by.sort(key=lambda x: (x != m[2], x))
    rows.append(f"| {m[1]} | {m[2]} | {meta['needs']}: {meta['what_it_breaks']} | {', '.join(by) or '(missed)'} |")
p = root + '/DESIGN.md'
s = open(p).read()
head = '| planted bug | property | needs, and what it breaks | caught by |\n|---|---|---|---|\n'
i = s.find(head)
if i >= 0:
    j = i
    while s.startswith('|', j):
        j = s.index('\n', j) + 1
    s = s[:i] + s[j:]
    s = s.rstrip('\n') + '\n\n'
else:
    s = s.rstrip('\n') + '\n\n'
s += head + '\n'.join(rows) + '\n'
open(p, 'w').write(s)
