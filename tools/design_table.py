"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(os.path.join(H, 'seeded'))):
    m = json.load(open(os.path.join(H, 'seeded', d, 'meta.json')))
    rows.append((m['property'], d, m['needs']))
rows.sort()
t = ''.join(f'| {d} | {p} | {n} |\n' for p, d, n in rows)
f = os.path.join(H, 'DESIGN.md')
s = open(f).read()
s = s.replace('@@TABLE@@\n', '@@TABLE@@')
head = '| planted bug | caught by | needs |\n|---|---|---|\n'
i = s.index(head) + len(head)
j = s.index('Besides these', i)
s = s[:i] + t + '\n' + s[j:]
open(f, 'w').write(s)
