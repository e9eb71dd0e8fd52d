"""Rewrite the table of planted bugs at the end of DESIGN.md."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = '<!-- table -->\n'
rows = []
for n in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
    d = json.load(open(os.path.join(HERE, 'seeded', n, 'meta.json')))
    rows.append('| %s | %s | %s |' % (n, d['property'], d['needs']))
p = os.path.join(HERE, 'DESIGN.md')
t = open(p).read().split(MARK)[0]
with open(p, 'w') as f:
    f.write(t + MARK + '\n## Table of planted bugs\n\n| planted bug | caught by |'
            ' needs |\n|---|---|---|\n' + '\n'.join(rows) + '\n')
