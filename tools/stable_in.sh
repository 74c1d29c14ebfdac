#!/bin/bash
# tools/stable_in.sh DIR: run the stable tests on a scratch copy of the repository; prints "N [names]" of those that fail
w=$1; v=$w/.vp; mkdir -p "$v"; cp -r /opt/vp/plugin "$v/plugin"; cp /opt/vp/scope.sh /opt/vp/kernels.sh /opt/vp/test.sh /opt/vp/results.py "$v/"
for f in "$v"/*.sh "$v"/results.py "$v"/plugin/*.py; do sed -i "s#/opt/vp/#$v/#g; s#/repo\b#$w#g; s#$w/\.vp/reports#$v/reports#g" "$f"; done
timeout 300 bash "$v/test.sh" "$v/out.json" >"$v/test.log" 2>&1
python3 -c "
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
try: bad=b-set(json.load(open('$v/out.json'))['passed']); print(len(bad), sorted(bad)[:3])
except Exception as e: print('none', e)"
