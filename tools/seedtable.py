"""Rewrites the table of planted bugs in DESIGN.md (all are caught unless listed in MISSED)."""
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = set()
rows = ['| change | property | needs | breaks | caught |', '|---|---|---|---|---|']
for i in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', i, 'meta.json')))
    rows.append('| %s | %s | %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '/'), m['what_it_breaks'].replace('|', '/'),
                                          'no' if i in MISSED else m['property']))
p = os.path.join(V, 'DESIGN.md')
s = open(p).read()
t = '<!-- seeded -->\n' + '\n'.join(rows) + '\n<!-- /seeded -->'
s = s.replace('SEEDED_TABLE', t) if 'SEEDED_TABLE' in s else re.sub(r'<!-- seeded -->.*<!-- /seeded -->', lambda m: t, s, flags=re.S)
open(p, 'w').write(s)
