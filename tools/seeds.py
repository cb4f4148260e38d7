#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| change | property | what it breaks | needs | caught by |', '|---|---|---|---|---|']
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append('| %s | %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'], m['what_it_breaks'], m['needs'], m.get('caught_by', m['property'])))
p = V + '/DESIGN.md'
t = open(p).read()
a, z = '<!-- seeds -->\n', '<!-- end of seeds -->\n'
t = t.replace('@@SEEDS@@\n', a + z)
i, j = t.index(a) + len(a), t.index(z)
open(p, 'w').write(t[:i] + '\n'.join(rows) + '\n' + t[j:])
