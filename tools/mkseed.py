#!/usr/bin/env python3
"""mkseed.py SPEC.py: writes seeded/<id>/ folders. SPEC defines seeds = [dict(id, property, edits=[(file, old, new)],
dir=<package folder of the demo>, demo=<Go main program>, needs=, breaks=)]."""
import difflib, json, os, runpy, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = """#!/bin/bash
# Run in the repository: exit 0 if the property holds in this scenario.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d)
trap 'find "$t" -delete' EXIT
echo "{\\"Replace\\":{\\"$PWD/%(dir)s/zzdemo/main.go\\":\\"$here/main.go.txt\\"}}" > "$t/o.json"
go build -overlay "$t/o.json" -o "$t/demo" ./%(dir)s/zzdemo || exit 2
cd "$t" && timeout 120 ./demo
"""
for f in sys.argv[1:]:
    for s in runpy.run_path(f)["seeds"]:
        d = os.path.join(V, "seeded", s["id"]); os.makedirs(d, exist_ok=True)
        files = {}
        for fn, old, new in s["edits"]:
            t = files.setdefault(fn, [open("/repo/" + fn).read()] * 2)
            assert t[1].count(old) == 1, (s["id"], fn, old, t[1].count(old))
            t[1] = t[1].replace(old, new); files[fn] = t
        out = ""
        for fn, (a, b) in files.items():
            out += "diff --git a/%s b/%s\n" % (fn, fn)
            out += "".join(difflib.unified_diff(a.splitlines(True), b.splitlines(True), "a/" + fn, "b/" + fn))
        open(d + "/patch.diff", "w").write(out)
        open(d + "/main.go.txt", "w").write(s["demo"].lstrip())
        open(d + "/demo.sh", "w").write(DEMO.replace("\\\\", "\\") % {"dir": s["dir"]}); os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
