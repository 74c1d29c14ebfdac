#!/bin/bash
# tools/mutrun.sh JSONLINE OUT: apply one mutant of tools/mutgen.py to a scratch copy, run the stable tests unless they
# fail, then the checks mapped to its file until one reports a violation; appends one line to OUT
j="$1"; out="$2"; id=$(jq -r .id <<<"$j"); w=/tmp/mw/$id; mkdir -p /tmp/mw; cp -a /repo "$w"
diff=$(python3 - "$j" "$w" <<'P'
import json,sys,subprocess
j=json.loads(sys.argv[1]); w=sys.argv[2]; p=w+'/'+j['file']; b=open(p,'rb').read()
n=b[:j['start']]+j['new'].encode()+b[j['end']:]; open(p,'wb').write(n)
try: compile(n,p,'exec')
except SyntaxError: sys.exit(5)
P
) || { echo "$id syntax" >>"$out"; /bin/rm -rf "/tmp/mw/$id"; exit; }
t=$(/verif/tools/stable_in.sh "$w"); /bin/rm -rf "$w/.vp"
if [ "${t%% *}" != 0 ]; then echo "$id tests ${t:0:80}" >>"$out"; /bin/rm -rf "/tmp/mw/$id"; exit; fi
/bin/rm -rf "$w/mplang/kernels/libmplang_kernels.so" "$w/.mpl"
res=""
for c in $(jq -r '.checks[]' <<<"$j"); do
  o=$(VERIF_REPO=$w VERIF_SEED=1 timeout 900 ${V:-/verif}/run.sh $c 2>&1); rc=$?
  res="$res $c=$rc"
  [ $rc = 1 ] && { res="$res CAUGHT $(echo "$o" | grep -m1 '^---' | cut -c1-120)"; break; }
done
echo "$id $res | $(jq -rc '[.file,.line,.kind,.new]|join(" ; ")' <<<"$j" | tr '\n' ' ' | cut -c1-160)" >>"$out"
/bin/rm -rf "/tmp/mw/$id"
