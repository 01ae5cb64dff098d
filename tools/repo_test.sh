#!/bin/bash
# build /repo, run its tests, and report any stable test that does not pass
set -e
bash /opt/vp/build.sh >/tmp/rt_build.log 2>&1 || { tail -5 /tmp/rt_build.log; echo BUILD-FAILED; exit 1; }
bash /opt/vp/test.sh /tmp/rt_out.json >/tmp/rt_test.log 2>&1 || true
python3 - <<'P'
import json,sys
o=json.load(open('/tmp/rt_out.json')); b=json.load(open('/opt/vp/BASELINE.json'))
miss=[t for t in b['stable'] if t not in o['passed']]
print('stable', len(b['stable']), 'not passing', miss)
sys.exit(1 if miss else 0)
P
