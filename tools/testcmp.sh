#!/bin/sh
# run the repository's tests and list stable ones that fail
bash /opt/vp/test.sh /tmp/out.json >/tmp/test.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/out.json'))
s=set(b['stable']); print('stable failing:', sorted(s-set(o['passed'])))
P
