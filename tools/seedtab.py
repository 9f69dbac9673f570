"""Rewrites the table of planted bugs at the end of DESIGN.md from the meta.json files."""
import glob
import json
import os

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| id | property | what it breaks | needs |', '|---|---|---|---|']
for d in ('seeded', 'extra_seeds'):
    for p in sorted(glob.glob(os.path.join(root, d, '*', 'meta.json'))):
        m = json.load(open(p))
        i = os.path.basename(os.path.dirname(p))
        rows.append('| %s%s | %s | %s | %s |' % (i, '' if d == 'seeded' else ' (extra)', m['property'],
                                               m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/')))
p = os.path.join(root, 'DESIGN.md')
s = open(p).read()
a, b = '<!-- seeds -->\n', '<!-- /seeds -->'
i, j = s.index(a) + len(a), s.index(b)
open(p, 'w').write(s[:i] + '\n'.join(rows) + '\n' + s[j:])
