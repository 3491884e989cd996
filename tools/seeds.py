#!/usr/bin/env python3
"""Rewrite the table of planted changes in DESIGN.md from seeded/*/meta.json (developer aid)."""
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = os.path.join(ROOT, 'seeded')
rows = ['| change | breaks | needs | caught by |', '|---|---|---|---|']
for x in sorted(os.listdir(D)):
    m = json.load(open(os.path.join(D, x, 'meta.json'), encoding='utf-8'))
    files = sorted(set(re.findall(r'^\+\+\+ b/heat_load_calc/(\S+)', open(os.path.join(D, x, 'patch.diff'), encoding='utf-8', errors='replace').read(), re.M)))
    rows.append('| %s | %s (%s) | %s | check %s |' % (x, m['what_it_breaks'], ', '.join(files), m['needs'], m['property']))
p = os.path.join(ROOT, 'DESIGN.md')
s = open(p, encoding='utf-8').read()
a, rest = s.split('<!-- seeds -->\n', 1)
b = rest.split('<!-- /seeds -->', 1)[1]
open(p, 'w', encoding='utf-8').write(a + '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->' + b)
print(len(rows) - 2)
