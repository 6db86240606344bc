#!/bin/bash
# runs the stable tests on /repo and prints which baseline tests no longer pass
bash /opt/vp/test.sh /tmp/t.json > /tmp/t.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
print('missing',[x for x in b['stable'] if x not in set(t['passed'])])
P
