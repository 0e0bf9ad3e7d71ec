"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json')):
    m = json.load(open(f))
    rows.append((m['property'], os.path.basename(os.path.dirname(f)), m['needs']))
mark = '<!-- seeded-table -->'
p = os.path.join(HERE, 'DESIGN.md')
s = open(p).read()
a = s.index(mark)
lines = s[a:].splitlines()
k = 1
while k < len(lines) and lines[k].startswith('|'):
    k += 1
t = ['| check | planted bug | needs |', '|---|---|---|'] + ['| %s | %s | %s |' % r for r in sorted(rows)]
open(p, 'w').write(s[:a] + '\n'.join([mark] + t + lines[k:]) + '\n')
