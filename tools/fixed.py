#!/usr/bin/env python3
"""fixed.py PROPERTY 'subject prefix' 'what failed': record a repair commit of /repo."""
import json, subprocess, sys
p = '/verif/known_findings.json'; d = json.load(open(p))
h = [l.split(' ', 1)[0] for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s'], text=True).splitlines() if l.split(' ', 1)[1].startswith('fix: ' + sys.argv[2])]
assert len(h) == 1, h
d['fixed'].append('fixed: property=%s %s %s' % (sys.argv[1], h[0], sys.argv[3]))
json.dump(d, open(p, 'w'), indent=1)
