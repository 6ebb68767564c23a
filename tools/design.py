#!/usr/bin/env python3
"""Rewrites the part of DESIGN.md about planted bugs from seeded/*/meta.json and tools/seeded_results.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(V + '/tools/seeded_results.json')) if os.path.exists(V + '/tools/seeded_results.json') else {}
rows = ['', '| change | property | what it breaks / needs | caught by |', '|---|---|---|---|']
for b in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(f'{V}/seeded/{b}/meta.json'))
    rows.append(f"| {b} | {m['property']} | {m['what_it_breaks']} — needs {m['needs']} | {res.get(b, '?')} |")
p = V + '/DESIGN.md'
s = open(p).read()
a, z = '<!-- seeded -->', '<!-- /seeded -->'
s = s[:s.index(a) + len(a)] + '\n'.join(rows) + '\n' + s[s.index(z):]
open(p, 'w').write(s)
