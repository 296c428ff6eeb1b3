#!/usr/bin/env python3
# mktable.py: rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json.
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for i in sorted(os.listdir(root + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (root, i)))
    rows.append('| %s | `%s` | %s | %s |' % (m['property'], i, m['what_it_breaks'], m['needs']))
rows.sort(key=lambda r: r.split('|')[1])
s = open(root + '/DESIGN.md').read()
head = '| check | bug | what it breaks | needs |\n|---|---|---|---|\n'
a = s.index(head) + len(head)
b = s.index('\n\n', a)
open(root + '/DESIGN.md', 'w').write(s[:a] + '\n'.join(rows) + s[b:])
