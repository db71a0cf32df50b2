#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks/*.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
p = os.path.join(here, 'tools', 'not_applicable.json')
if os.path.exists(p):
    NA = json.load(open(p))
checks, na = [], []
for l in open(os.path.join(here, 'properties.jsonl')):
    pid = json.loads(l)['id']
    f = os.path.join(here, 'checks', pid + '.json')
    if os.path.exists(f):
        c = json.load(open(f))
        checks.append({
            'property': pid,
            'quick_cmd': f'./check.sh {pid} quick',
            'thorough_cmd': f'./check.sh {pid} thorough',
            'technique': 'symbolic execution of the real Go code (go/ssa, regenerated from /repo on every run) with an SMT solver (z3) deciding each branch and assertion over all inputs within the bounds; counterexamples replayed natively',
            'level': 'model_checking',
            'level_note': 'bounded: ' + '; '.join(c['bounds']) + ('. Stubs: ' + '; '.join(c['stubs']) if c['stubs'] else '') + '. Outside: ' + '; '.join(c['outside']),
        })
    else:
        na.append({'property': pid, 'reason': NA.get(pid, 'no check registered yet (work in progress)')})
m = {'version': 1, 'setup_cmd': './build.sh', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(here, 'MANIFEST.json'), 'a').write('\n')
