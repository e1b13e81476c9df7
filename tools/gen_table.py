#!/usr/bin/env python3
"""Rewrites the planted-bug table of DESIGN.md from seeded/*/meta.json."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for b in sorted(os.listdir(here + '/seeded')):
    m = json.load(open(f'{here}/seeded/{b}/meta.json'))
    rows.append(f"| {b} | {m['property']} | {m['what_it_breaks']} |")
p = here + '/DESIGN.md'
d = open(p).read()
head = '| planted bug | caught by | what it breaks |\n|---|---|---|\n'
a = d.index(head) + len(head)
e = a
while d[e] == '|':
    e = d.index('\n', e) + 1
open(p, 'w').write(d[:a] + '\n'.join(rows) + '\n' + d[e:])
