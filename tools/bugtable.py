#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md (development only; no check reads seeded/)."""
import os, json
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(H, 'DESIGN.md'); s = open(p).read(); m = '<!-- bugs -->\n'
s = s[:s.index(m) + len(m)] + '\n| bug | caught by | what it breaks |\n|----|----|----|\n'
for d in sorted(os.listdir(os.path.join(H, 'seeded'))):
    j = json.load(open(os.path.join(H, 'seeded', d, 'meta.json')))
    s += '| %s | %s | %s |\n' % (d, j['property'], j['what_it_breaks'].replace('|', '/'))
open(p, 'w').write(s)
