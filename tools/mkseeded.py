#!/usr/bin/env python3
"""rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in glob.glob(V + '/seeded/*/meta.json'):
    m = json.load(open(f))
    rows.append((m['property'], f.split('/')[-2], m['what_it_breaks'], m['needs']))
rows.sort()
t = '<!-- seeded -->\n| property | change | breaks | needs |\n|---|---|---|---|\n' + ''.join('| %s | %s | %s | %s |\n' % r for r in rows) + '<!-- /seeded -->'
p = V + '/DESIGN.md'
s = open(p).read()
s = s.replace('SEEDED-TABLE', t) if 'SEEDED-TABLE' in s else re.sub(r'<!-- seeded -->.*<!-- /seeded -->', lambda _: t, s, flags=re.S)
open(p, 'w').write(s)
