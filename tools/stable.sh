#!/bin/bash
# Runs the repository's tests and lists the stable ones that failed.
bash /opt/vp/test.sh /tmp/stable_out.json >/tmp/stable.log 2>&1
python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t=json.load(open('/tmp/stable_out.json'))
bad=b-set(t['passed']); print('stable failing:',len(bad)); [print(' ',x) for x in sorted(bad)[:20]]
P
