#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
from props import CHECKS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in CHECKS: continue
    c = CHECKS[i]
    checks.append({"property": i, "quick_cmd": "python3 check %s quick" % i, "thorough_cmd": "python3 check %s thorough" % i,
                   "evidence_file": "evidence/%s.json" % i, "technique": c["technique"], "level": c["level"],
                   "level_note": c["note"] or "Held on the executions of this run only; trusts the reference model in the harness, the compiler's sanitizers and the seed-determined workload."})
na = [{"property": i, "reason": NOT_APPLICABLE.get(i, "no check is built for it yet")} for i in ids if i not in CHECKS]
m = {"version": 1, "setup_cmd": "python3 check --setup", "checks": checks, "not_applicable": na,
     "notes": "Runtime monitors over instrumented builds of the real sources; no hooks in /repo are needed (extension points: custom VFS objects, the custom threading back end, allocator interposition at link time)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
