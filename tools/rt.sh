#!/bin/bash
# developer helper: rebuild /repo and compare its tests with the stable list
(bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/t.json) >/tmp/bt.log 2>&1; tail -1 /tmp/bt.log
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
print("missing:",set(b['stable'])-set(t['passed']))
P
