"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and
tools/seed_results.json (written by tools/seedtest.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(V + '/tools/seed_results.json'))
rows = ['| bug | property | needs | breaks | caught by its check |', '|---|---|---|---|---|']
for i in sorted(os.listdir(V + '/seeded')):
  m = json.load(open(f'{V}/seeded/{i}/meta.json'))
  r = res.get(i)
  c = 'not run' if r is None else ('yes' if r['caught'] else 'NO')
  rows.append('| %s | %s | %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '/'), m['what_it_breaks'].replace('|', '/'), c))
p = V + '/DESIGN.md'
s = open(p).read()
a, b = '<!-- matrix -->', '<!-- /matrix -->'
if a not in s:
  s = s.rstrip() + '\n\n' + a + '\n' + b + '\n'
s = s[:s.index(a)] + a + '\n' + '\n'.join(rows) + '\n' + s[s.index(b):]
open(p, 'w').write(s)
