#!/bin/bash
# development helper: run /repo's own tests and compare with the baseline
bash /opt/vp/test.sh /tmp/o.json >/tmp/o.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/o.json'))
print(len(b['stable']),'stable; missing now:',set(b['stable'])-set(o['passed']))
P
