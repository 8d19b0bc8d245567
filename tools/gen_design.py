#!/usr/bin/env python3
"""Fills the table of planted changes in DESIGN.md from seeded/*/meta.json and tools/seed_results.json."""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
p = V + '/tools/seed_results.json'
if os.path.exists(p):
    res = json.load(open(p))
rows = []
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f)); i = f.split('/')[-2]
    rows.append('| %s | %s | %s | %s |' % (i, m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/'), res.get(i, m['property'])))
t = open(V + '/DESIGN.md').read()
a, b = '<!-- seeds -->\n', '<!-- /seeds -->'
t = t[:t.index(a) + len(a)] + '| change | what it breaks | needs | caught by |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n' + t[t.index(b):]
open(V + '/DESIGN.md', 'w').write(t)
print(len(rows), 'rows')
