#!/usr/bin/env python3
"""DESIGN.md from tools/design_head.md and the results of the bug bench (tools/caught.json)."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(H)
caught = json.load(open(H + '/caught.json'))
rows = []
for d in os.listdir(V + '/seeded'):
    m = json.load(open(f'{V}/seeded/{d}/meta.json'))
    c = caught.get(d, {})
    rows.append((m['property'], d, m['needs'], ', '.join(c.get('by', [])) or 'missed', c.get('first', '')))
rows.sort()
t = ['| property | bug | needs | caught by | first message |', '|---|---|---|---|---|']
esc = lambda s: s.replace('|', '\\|').replace('\n', ' ')
t += ['| ' + ' | '.join(esc(x) for x in r) + ' |' for r in rows]
n = sum(r[3] != 'missed' for r in rows)
t.append(f'\n{n} of {len(rows)} are caught.')
s = open(H + '/design_head.md').read().replace('@BUGS@', '\n'.join(t))
open(V + '/DESIGN.md', 'w').write(s)
