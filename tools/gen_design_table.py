#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (development aid)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
first = {'b15-boundary-x-length': 'missed at first: multiplicities and search by position added', 'b23-seed-zero': 'missed at first: special seeds added', 'b34-rate-map-drains': 'missed at first: sites without rates added'}
rows = ['| planted bug | caught by | what it breaks | needs |', '|---|---|---|---|']
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(m)); b = os.path.basename(os.path.dirname(m)); rows.append('| %s | %s%s | %s | %s |' % (b, d['property'], ' (' + first[b] + ')' if b in first else '', d['what_it_breaks'], d['needs']))
p = V + '/DESIGN.md'; s = open(p).read(); a, z = '<!-- planted -->', '<!-- /planted -->'
i, j = s.index(a), s.index(z); open(p, 'w').write(s[:i] + a + '\n' + '\n'.join(rows) + '\n' + s[j:])
