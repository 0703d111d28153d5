#!/bin/bash
# stable.sh [repo-copy]: builds and runs the stable tests of /repo; prints what no longer passes.
bash /opt/vp/build.sh >/tmp/vz-build.log 2>&1 || { echo BUILD FAILED; tail -5 /tmp/vz-build.log; exit 1; }
bash /opt/vp/test.sh /tmp/vz-test.json >/dev/null 2>&1
python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);p=set(json.load(open('/tmp/vz-test.json'))['passed'])
print(len(b&p),"of",len(b),"stable pass", sorted(b-p))
P
