#!/bin/bash
# seedtest.sh ID... : checks planted bugs in a scratch copy: builds, stable tests, demo both ways,
# and whether the property's quick check reports it. Prints one line per bug.
here=$(cd "$(dirname "$0")/.." && pwd)
. /opt/vp/env.sh
for id in "$@"; do
  d=$here/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  W=$(mktemp -d /tmp/seed.XXXXXX)
  cp -a /repo "$W/repo"; cd "$W/repo" || exit 1
  mkdir "$W/demo"; cp -r "$d"/. "$W/demo"; rm -f "$W"/demo/*.diff "$W"/demo/meta.json
  r=""
  timeout 300 bash "$W/demo/demo.sh" >"$W/demo0.log" 2>&1 || r="$r DEMO-FAILS-CLEAN"
  git apply "$d/patch.diff" 2>"$W/apply.log" || r="$r NOAPPLY"
  go build ./... >"$W/build.log" 2>&1 || r="$r NOBUILD"
  timeout 300 bash "$W/demo/demo.sh" >"$W/demo1.log" 2>&1 && r="$r DEMO-PASSES-PATCHED"
  if [ -z "$NOTEST" ]; then
    go test -json -vet=off -count=1 -skip '^TestParseCredentialWithResource$' ./... > "$W/t.json" 2>/dev/null
    python3 - "$W/t.json" > "$W/t.txt" <<'PY'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))
res={}
for l in open(sys.argv[1]):
    try: d=json.loads(l)
    except: continue
    if d.get('Action') in('pass','fail') and d.get('Test'): res[d['Package']+'/'+d['Test']]=d['Action']
print('\n'.join(t for t in b['stable'] if res.get(t)!='pass'))
PY
    f=$(grep -v '^$' "$W/t.txt" | head -3 | tr '\n' ';')
    [ -n "$f" ] && r="$r TESTS-FAIL($f)"
  fi
  if [ -z "$NOCHECK" ]; then
    t0=$(date +%s)
    (cd "$here" && timeout 900 bin/gosym -verif "$here" -repo "$W/repo" -check "$prop" -tier quick -out "$W/ev") >"$W/check.log" 2>&1; rc=$?
    if [ $rc = 1 ] && grep -q "^VIOLATION property=$prop " "$W/check.log"; then c=CAUGHT; else c="MISSED(rc=$rc)"; fi
    c="$c $(( $(date +%s) - t0 ))s"
  fi
  echo "$id [$prop]: ${r:-valid} ; $c"
  [ -n "$KEEP" ] && echo "kept $W" || find "$W" -delete
done
