#!/usr/bin/env python3
"""Writes DESIGN.md: the text below, and for every property what its check file, the findings file and the planted bugs say."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
HEAD = open(V + "/tools/design_head.md").read()
ORACLE = json.load(open(V + "/tools/design_oracles.json"))
fixed, known = {}, {}
for l in open(V + "/known-findings.jsonl"):
    l = l.strip()
    if l.startswith("fixed: property="):
        p, rest = l[len("fixed: property="):].split(" ", 1)
        fixed.setdefault(p, []).append(rest)
    elif l.startswith("{"):
        e = json.loads(l)
        known.setdefault(e["property"], []).append(e)
seeds = {}
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(m))
    seeds.setdefault(d["property"], []).append((os.path.basename(os.path.dirname(m)), d))
out = [HEAD.rstrip(), "", "## Properties", ""]
for p in props:
    i = p["id"]
    c = json.load(open(V + "/checks/%s.json" % i))
    out += ["### %s: %s" % (i, p["title"]), "", p["statement"], "", "Anchors: " + ", ".join("`%s`" % f for f in p["anchors"]["files"]) + ".", ""]
    out += ["**Decided by** " + "; ".join("`%s.%s` (%s)" % (h["pkg"], h["fn"], h["what"]) for h in c["harnesses"]) + ".", ""]
    out += ["**Oracle.** " + ORACLE[i], ""]
    out += ["**Bounds.**", ""] + ["- " + b for b in c["bounds"]] + [""]
    if c.get("stubs"): out += ["**Stubbed:** " + "; ".join(c["stubs"]) + ".", ""]
    if c.get("outside"): out += ["**Outside:** " + "; ".join(c["outside"]) + ".", ""]
    if i in fixed: out += ["**Defects found and repaired:**", ""] + ["- " + f for f in fixed[i]] + [""]
    if i in known: out += ["**Known findings (not repaired):**", ""] + ["- `%s`, assertion \"%s\": %s" % (e["harness"], e["label"], e["what"]) for e in known[i]] + [""]
    if i in seeds: out += ["**Planted bugs:**", ""] + ["- `%s`: %s Needs: %s %s" % (n, d["what_it_breaks"].rstrip(".") + ".", d["needs"].rstrip(".") + ".", d.get("caught", "Caught by %s." % i)) for n, d in seeds[i]] + [""]
open(V + "/DESIGN.md", "w").write("\n".join(out).rstrip() + "\n")
