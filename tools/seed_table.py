#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/caught.tsv (name, property, caught by)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = {}
f = here + '/tools/caught.tsv'
if os.path.exists(f):
    for l in open(f):
        n, by = l.rstrip('\n').split('\t')
        caught[n] = by
rows = []
for n in sorted(os.listdir(here + '/seeded')):
    m = json.load(open(f'{here}/seeded/{n}/meta.json'))
    rows.append(f"| {n} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {caught.get(n, 'not run')} |")
s = open(here + '/DESIGN.md').read()
mark = '## Planted bugs\n'
text = mark + '''
Each was planted in a copy from the text of a property and the code, and kept whether or not it was
caught at first; the last column is the check (quick tier, seed 1) that catches it now.

| bug | property | breaks | needs | caught by |
|-----|----------|--------|-------|-----------|
''' + '\n'.join(rows) + '\n'
i = s.find(mark)
s = (s[:i] if i >= 0 else s.rstrip('\n') + '\n\n') + text
open(here + '/DESIGN.md', 'w').write(s)
