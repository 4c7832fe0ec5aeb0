#!/bin/bash
# Runs /repo's own tests and compares with the baseline (development aid; no check uses it).
bash /opt/vp/test.sh /tmp/t.json >/dev/null 2>&1
python3 - <<'P'
import json
a=set(json.load(open('/tmp/t.json'))['passed']);b=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
print('stable',len(b),'missing',sorted(b-a))
P
grep -n "^error" -A9 /repo/target/vp-test.log | head -40
