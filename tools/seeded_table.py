#!/usr/bin/env python3
"""refreshes the table of planted bugs in DESIGN.md (documentation only; no check reads seeded/)"""
import glob, json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(ROOT + '/seeded/*')):
    m = json.load(open(d + '/meta.json'))
    rows.append('| %s | %s | %s | caught |' % (os.path.basename(d), m['property'], m['needs']))
p = ROOT + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'<!--SEEDED-->.*<!--/SEEDED-->', lambda _: '<!--SEEDED-->\n| id | property | needs | result |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n<!--/SEEDED-->', s, flags=re.S)
open(p, 'w').write(s)
