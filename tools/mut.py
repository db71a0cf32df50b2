#!/usr/bin/env python3
"""mut.py [-j N] [-notest] FILE.py [ID...]: applies each change of the file (muts = [(id, property or properties, file, old, new)])
to a scratch copy of /repo, runs the stable tests and the quick checks, and prints what happened. A development aid; no
check uses it."""
import json, os, runpy, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
j = 2
notest = False
while args and args[0].startswith("-"):
    if args[0] == "-j": j = int(args[1]); args = args[2:]
    elif args[0] == "-notest": notest = True; args = args[1:]
muts = runpy.run_path(args[0])["muts"]
only = args[1:]
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
env = dict(os.environ, **dict(l.split("=", 1) for l in subprocess.check_output(["bash", "-c", ". /opt/vp/env.sh; env"], text=True).splitlines() if "=" in l))
def run(m):
    id, props, fn, old, new = m[:5]
    if isinstance(props, str): props = [props]
    w = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
    try:
        subprocess.check_call(["cp", "-a", "/repo", w + "/repo"])
        r = w + "/repo"
        edits = [(fn, old, new)] if isinstance(fn, str) else fn
        for f, o, n in edits:
            s = open(r + "/" + f).read()
            if s.count(o) != 1: return "%s: BAD EDIT (%d matches in %s)" % (id, s.count(o), f)
            s = s.replace(o, n)
            for pk in ("strings", "time"):
                if pk + "." in n and '"%s"' % pk not in s: s = s.replace("import (\n", 'import (\n\t"%s"\n' % pk, 1)
            open(r + "/" + f, "w").write(s)
        b = subprocess.run(["go", "build", "./..."], cwd=r, env=env, capture_output=True, text=True)
        if b.returncode: return "%s: NOBUILD %s" % (id, b.stderr[-300:])
        out = []
        missed = False
        for p in props:
            t0 = time.time()
            c = subprocess.run([V + "/bin/gosym", "-verif", V, "-repo", r, "-check", p, "-tier", "quick", "-out", w + "/ev"], capture_output=True, text=True)
            hit = c.returncode == 1 and ("VIOLATION property=%s " % p) in c.stdout
            lab = [l.strip() for l in c.stdout.splitlines() if "counterexample" in l][:1]
            missed |= not hit
            out.append("%s %s %.0fs %s" % (p, "CAUGHT" if hit else "**MISSED rc=%d**" % c.returncode, time.time() - t0, lab[0][:110] if lab else ""))
        if missed and not notest:
            t = subprocess.run(["go", "test", "-json", "-vet=off", "-skip", "^TestParseCredentialWithResource$", "./..."], cwd=r, env=env, capture_output=True, text=True)
            res = {}
            for l in t.stdout.splitlines():
                try: d = json.loads(l)
                except ValueError: continue
                if d.get("Action") in ("pass", "fail") and d.get("Test"): res[d["Package"] + "/" + d["Test"]] = d["Action"]
            bad = [x for x in stable if res.get(x) != "pass"]
            if bad: out.append("tests fail (%d: %s)" % (len(bad), bad[0]))
        return id + ": " + " ; ".join(out)
    finally:
        shutil.rmtree(w, ignore_errors=True)
with ThreadPoolExecutor(j) as ex:
    for o in ex.map(run, [m for m in muts if not only or m[0] in only]): print(o, flush=True)
