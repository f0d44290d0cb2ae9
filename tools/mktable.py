#!/usr/bin/env python3
"""mktable.py CATCHES.txt : rewrites the table of section 5 in DESIGN.md from seeded/*/meta.json and lines 'ID CHECKS' (which checks report it)."""
import sys, os, json, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c = dict(l.strip().split(' ', 1) for l in open(root + '/tools/catches.txt') if l.strip())
rows = ['| id | property | what it needs | caught by |', '|---|---|---|---|']
for b in sorted(os.listdir('/verif/seeded')):
    m = json.load(open('/verif/seeded/%s/meta.json' % b))
    rows.append('| %s | %s | %s | %s |' % (b, m['property'], m['needs'].replace('|', '/'), c.get(b.split('-')[0], '?')))
p = root + '/DESIGN.md'; s = open(p).read()
t = '<!--table-->\n' + '\n'.join(rows) + '\n<!--/table-->'
s = re.sub(r'@@TABLE@@|<!--table-->.*?<!--/table-->', lambda m: t, s, flags=re.S)
open(p, 'w').write(s)
