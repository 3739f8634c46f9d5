#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and plan.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plan import PLAN
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in PLAN:
        na.append({"property": i, "reason": "no check has been built for it yet"})
        continue
    checks.append({"property": i, "quick_cmd": "python3 tools/check.py " + i, "thorough_cmd": "python3 tools/check.py %s --tier thorough" % i, "evidence_file": "evidence/%s.json" % i,
        "technique": "symbolic execution of the program's LLVM IR with an SMT solver (Z3)", "level": "model_checking",
        "level_note": "Every path of the real code is explored for all values of the symbolic inputs within the bounds stated per harness in the evidence; counterexamples count only when the natively built program reproduces them. Trusted: the engine's IR semantics and simplifier (self-tested, sampled paths validated natively), Z3, rustc. Nothing is claimed outside the bounds."})
json.dump({"version": 1, "setup_cmd": "python3 tools/vfbuild.py", "checks": checks, "not_applicable": na,
    "notes": "The harnesses are added to a copy of the crate's sources when it is built; /repo itself carries no hooks."}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
