#!/usr/bin/env python3
"""cov.py: functions of /repo that no check's last run encoded. A development aid."""
import glob, json, os, re
enc = set()
for f in glob.glob("/verif/evidence/*.json"):
    try: d = json.load(open(f))["coverage"]
    except Exception: continue
    for k in d.get("functions_encoded", d.get("repo_functions", [])): enc.add(re.sub(r"\$\d+", "", k).strip())
names = {}
for dp, dn, fs in os.walk("/repo"):
    if "internal/zz" in dp or "/internal/testutil" in dp or ".git" in dp: continue
    for f in fs:
        if not f.endswith(".go") or f.endswith("_test.go"): continue
        p = os.path.join(dp, f)
        for m in re.finditer(r"(?m)^func (?:\((\w+ )?(\*?)(\w+)(?:\[\w+\])?\) )?(\w+)", open(p).read()):
            rec, fn = m.group(3), m.group(4)
            names.setdefault(os.path.relpath(p, "/repo"), []).append((rec, fn))
short = set()
for e in enc:
    e2 = e.replace("vc-go/", "")
    short.add(e2)
tot = mis = 0
for f in sorted(names):
    d = os.path.dirname(f)
    out = []
    for rec, fn in names[f]:
        tot += 1
        cands = [f"{d}.{fn}"] if not rec else [f"({d}.{rec}).{fn}", f"(*{d}.{rec}).{fn}"]
        if not any(c in short for c in cands): out.append((rec + "." if rec else "") + fn); mis += 1
    if out: print(f"{f} [{len(out)}/{len(names[f])}]: {' '.join(out)}")
print(tot, mis)
