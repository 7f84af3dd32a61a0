#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json (run: python3 tools/mkmanifest.py)."""
import json, os, re, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + '/properties.jsonl')]
have = set()
for f in glob.glob(here + '/harness/props/*.go'):
    have |= set(re.findall(r'^func (C\d\d)_', open(f).read(), re.M))
NOTE = ("Bounded: within the input sizes listed in the evidence, every path of the compiled SSA of the repository (and of the "
        "standard library it calls) is executed symbolically and each assertion is decided by z3 for all values of that path; "
        "harnesses whose path tree is exhausted are exact within their bounds, others are reported as incomplete. Every "
        "violation is replayed natively before it is reported. Trusted: the executor's translation of Go SSA (checked by "
        "replaying sampled paths against the compiled code), its models of fmt, sort.Slice, errors.Is/As, sync and "
        "internal/bytealg, z3, and the reference written in the harness.")
NA = {}
exec(open(here + '/tools/notapplicable.py').read()) if os.path.exists(here + '/tools/notapplicable.py') else None
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p['id']
    if i in have and i not in NA:
        m["checks"].append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": "symbolic execution of the Go SSA with an SMT solver (gosym + z3), native replay of counterexamples",
            "level": "model_checking", "level_note": NOTE})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1)
open(here + '/MANIFEST.json', 'a').write('\n')
