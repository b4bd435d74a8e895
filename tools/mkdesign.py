#!/usr/bin/env python3
"""DESIGN.in.md + tables -> DESIGN.md"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from bounded import BOUNDED
HOW = json.load(open(V + '/tools/how.json'))
t = open(V + '/DESIGN.in.md').read()
rows = []
for l in open(V + '/properties.jsonl'):
    p = json.loads(l); i = p['id']
    b = BOUNDED.get(i, [])
    rows.append('| %s %s | %s%s |' % (i, p['title'], HOW.get(i, ''), (' **Bounded:** ' + ', '.join('`%s`' % x for x in b)) if b else ''))
t = t.replace('@TABLE@', '\n'.join(rows))
r = V + '/tools/caught.json'
c = json.load(open(r)) if os.path.exists(r) else {}
s = ['| change | property | caught by | how |', '|---|---|---|---|']
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, d)))
    k = c.get(d, {})
    s.append('| %s | %s | %s | %s |' % (d, m['property'], k.get('by', '(not run yet)'), k.get('how', '')))
t = t.replace('@SEEDS@', '\n'.join(s))
open(V + '/DESIGN.md', 'w').write(t)
