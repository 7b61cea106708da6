#!/usr/bin/env python3
"""Table of the planted changes for DESIGN.md (markdown on stdout)."""
import glob, json, os
V = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')
print('| change | property | what it breaks | needs |\n|---|---|---|---|')
rows = []
for f in glob.glob(V + '/*/meta.json'):
    d = json.load(open(f))
    rows.append((d['property'], os.path.basename(os.path.dirname(f)), d['what_it_breaks'], d['needs']))
for p, i, w, n in sorted(rows):
    print('| %s | %s | %s | %s |' % (i, p, w.replace('|', '/'), n.replace('|', '/')))
