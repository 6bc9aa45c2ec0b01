#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md. The checks that catch them are given as ID=C01,C02 (found by running the checks)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
extra = dict(a.split('=') for a in sys.argv[1:])
rows = ['| Change | What it needs | Caught by |', '|---|---|---|']
for d in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', d, 'meta.json')))
    rows.append('| %s | %s | %s |' % (d, m['needs'], extra.get(d, m['property'])))
p = os.path.join(V, 'DESIGN.md')
s = open(p).read()
a, b = '<!-- matrix -->\n', '<!-- end -->\n'
if a not in s: s = s.replace('MATRIX\n', a + b)
s = s[:s.index(a) + len(a)] + '\n'.join(rows) + '\n' + s[s.index(b):]
open(p, 'w').write(s)
