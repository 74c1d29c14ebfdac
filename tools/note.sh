#!/bin/bash
# tools/note.sh ID "technique" "level note" : append a NOTES entry, regenerate the manifest
python3 - "$@" <<'P'
import sys,json
p='/verif/tools/notes.py';s=open(p).read().rstrip()
assert s.endswith('}')
i,a,b=sys.argv[1:4]
open(p,'w').write(s[:-1]+f' {json.dumps(i)}: ({json.dumps(a)}, {json.dumps(b)}),\n}}\n')
P
cd /verif && python3 tools/props.py && python3 tools/manifest.py
