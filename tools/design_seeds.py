#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
rows = []
for f in sorted(glob.glob('seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append('| %s | %s | %s |' % (f.split('/')[1], m.get('caught_by') or m['property'], m['what_it_breaks']))
s = open('DESIGN.md').read()
t = '\n'.join(rows)
if '@@SEEDS@@' in s:
    s = s.replace('@@SEEDS@@', t)
else:
    s = re.sub(r'(\| bug \| caught by \| what it breaks \|\n\|---\|---\|---\|\n)(\|.*\n)*', lambda m: m.group(1) + t + '\n', s)
open('DESIGN.md', 'w').write(s)
