#!/usr/bin/env python3
"""rewrite the table of planted bugs at the end of DESIGN.md"""
import json, glob, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {'public-input-64-cycles': 'first missed: narrow truncation was taken as the identity; now opaque', 'lowmem-input-labels-reuse': 'first missed: added freshness of labels per cycle',
          'ot-choice-count-logged': 'first missed: added implicit flows of private input bits'}
p = R + '/DESIGN.md'
s = open(p).read()
i = s.index('| bug | caught by |')
rows = []
for f in glob.glob(R + '/seeded/*/meta.json'):
    d = json.load(open(f)); n = os.path.basename(os.path.dirname(f))
    rows.append((d['property'], n, '| %s | %s | %s | %s |\n' % (n, d['property'], d['what_it_breaks'], MISSED.get(n, ''))))
open(p, 'w').write(s[:i] + '| bug | caught by | what it breaks | note |\n|---|---|---|---|\n' + ''.join(r for _, _, r in sorted(rows)))
