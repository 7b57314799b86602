"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = {}
for d in sorted(os.listdir(here + '/seeded')):
    m = json.load(open(f'{here}/seeded/{d}/meta.json'))
    rows.setdefault(m['property'], []).append(d + ('' if m.get('caught', True) else ' (missed)'))
n = sum(map(len, rows.values()))
text = f'{n} bugs are kept under `seeded/`.\n\n| check | planted bugs it catches |\n|---|---|\n'
for p in sorted(rows):
    text += f'| {p} | {", ".join(rows[p])} |\n'
p = here + '/DESIGN.md'
s = open(p).read()
a, b = '<!-- seeds -->\n', '<!-- /seeds -->\n'
i, j = s.index(a) + len(a), s.index(b)
open(p, 'w').write(s[:i] + text + s[j:])
print(n)
