#!/bin/sh
# rebuild /repo and run its stable tests, printing only what fails
bash /opt/vp/build.sh >/tmp/vp-build.log 2>&1 || { tail -5 /tmp/vp-build.log; exit 1; }
bash /opt/vp/test.sh /tmp/vp-test.json >/dev/null 2>&1
python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable'];o=set(json.load(open('/tmp/vp-test.json'))['passed'])
print('stable tests failing:',[t for t in b if t not in o])"
git -C /repo status --short | head -5
