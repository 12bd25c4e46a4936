#!/usr/bin/env python3
"""Rewrites DESIGN.md's table of planted changes from seeded/*/meta.json."""
import collections, glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = collections.defaultdict(list)
for m in sorted(glob.glob(root + '/seeded/*/meta.json')):
    name = os.path.basename(os.path.dirname(m))
    by[json.load(open(m))['property']].append(name.split('-', 1)[1])
rows = ['| %s | %s |' % (p, ', '.join(sorted(by[p]))) for p in sorted(by)]
path = root + '/DESIGN.md'
text = open(path).read()
text = re.sub(r'(\| check \| planted.*?\n\|---\|---\|\n).*?\n\n', lambda m: m.group(1) + '\n'.join(rows) + '\n\n', text, count=1, flags=re.S)
open(path, 'w').write(text)
