#!/bin/bash
# replay.sh FILE: run a violation's inputs against the real code (a native build of the harness and /repo's current tree).
f=$(readlink -f "$1"); here=$(cd "$(dirname "$0")/.." && pwd); t=$(mktemp -d)
pkg=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["pkg"])' "$f")
dest=$(python3 - "$here" "$pkg" "$t/ov.json" <<'P'
import sys,os,json,glob
v,p,o=sys.argv[1:]; d=f'{v}/harness/{p}'
t='internal/zzverif/'+p
if os.path.exists(d+'/DIR'): t=open(d+'/DIR').read().strip()
r={f'/repo/{t}/'+os.path.basename(f):f for f in glob.glob(d+'/*.go')}
r.update({'/repo/internal/vsym/'+os.path.basename(f):f for f in glob.glob(v+'/vsym/*.go')})
json.dump({"Replace":r},open(o,'w')); print(t)
P
)
. /opt/vp/env.sh
cd /repo && go build -overlay "$t/ov.json" -o "$t/h" "./$dest" && { "$t/h" < "$f"; rc=$?; }
find "$t" -delete; exit "${rc:-2}"
