#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md from seeded/ and caught.json (run by hand, never by a check)."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(os.path.join(here, 'tools', 'caught.json')))
reverted = os.path.join(here, 'tools', 'reverted.json')
rows = ['| Planted bug | Property | Needs | Caught | By (first oracles) |', '|---|---|---|---|---|']
for i in sorted(os.listdir(os.path.join(here, 'seeded')), key=lambda x: (json.load(open(os.path.join(here, 'seeded', x, 'meta.json')))['property'], x)):
    m = json.load(open(os.path.join(here, 'seeded', i, 'meta.json')))
    c = caught.get(i, {})
    rows.append('| %s | %s | %s | %s | %s |' % (i, m['property'], m['needs'], 'yes' if c.get('caught') else 'no', ', '.join(c.get('by', [])[:3])))
if os.path.exists(reverted):
    rows += ['', '| Reverted fix | Property | Reported again by |', '|---|---|---|']
    for h, e in json.load(open(reverted)).items():
        rows.append('| %s %s | %s | %s |' % (h, e['what'], e['property'], e['result']))
p = os.path.join(here, 'DESIGN.md')
s = open(p).read()
s = re.sub(r'<!-- table -->.*<!-- end -->', lambda m: '<!-- table -->\n' + '\n'.join(rows) + '\n<!-- end -->', s, flags=re.S)
open(p, 'w').write(s)
