#!/usr/bin/env python3
"""Re-run one recorded counterexample natively: replay.py FILE.json"""
import json, sys
sys.argv, f = [sys.argv[0]], sys.argv[1]
import check
d = json.load(open(f))
n = check.Native(check.Prop(d['property']))
for k in ('nat', 'asan'):
    rc, out, err = n.run(k, d['harness'], d['inputs'], {})
    print('== %s: exit %d\n%s%s' % (k, rc, out[-2000:], err[-2000:]))
n.close()
