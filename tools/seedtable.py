#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md.

Which check catches which bug is taken from tools/seedkit/caught.json:
{"<id>": ["<property>", ...]}; checks are run by hand."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(root + '/tools/seedkit/caught.json'))
rows = ['| planted bug | needs | caught by |', '|---|---|---|']
for d in sorted(os.listdir(root + '/seeded')):
    m = json.load(open(f'{root}/seeded/{d}/meta.json'))
    c = ', '.join(caught.get(d, [])) or 'MISSED by ' + m['property']
    rows.append(f"| {d} | {m['needs'].replace('|', '/')} | {c} |")
p = root + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'(<!-- seeds -->\n).*?(<!-- /seeds -->)', lambda x: x[1] + '\n'.join(rows) + '\n' + x[2], s, flags=re.S)
open(p, 'w').write(s)
