#!/usr/bin/env python3
"""Rewrite the table of planted bugs at the end of DESIGN.md."""
import glob
import json
import os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for p in sorted(glob.glob(here + '/seeded/*/meta.json')):
    m = json.load(open(p))
    rows.append((m['property'], os.path.basename(os.path.dirname(p)),
                 ' '.join(m['needs'].split())))
t = '| property | bug | needs |\n|---|---|---|\n' + '\n'.join(
    '| %s | %s | %s |' % r for r in sorted(rows)) + '\n'
p = here + '/DESIGN.md'
s = open(p).read()
i = s.find('SEEDTABLE')
if i < 0:
    i = s.index('| property | bug |')
open(p, 'w').write(s[:i] + t)
