#!/usr/bin/env python3
"""Regenerates MANIFEST.json: a property is claimed when checks/cNN.py exists."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TECH = "symbolic execution of the compiled LLVM bitcode of /repo (fsym) with a canonical XOR normal form and SMT solvers (z3, cvc5) deciding every remaining assertion for all inputs within the bounds; counterexamples replayed natively"
NOTES = json.load(open(os.path.join(V, "tools", "notes.json")))
NA = NOTES.pop("_na", {})
checks, na = [], []
for p in props:
    i = p["id"]
    f = "checks/%s.py" % i.lower()
    if os.path.exists(os.path.join(V, f)) and i not in NA:
        n = NOTES[i]
        checks.append({"property": i, "quick_cmd": "python3 " + f, "thorough_cmd": "python3 " + f + " --thorough", "evidence_file": "evidence/%s.json" % i, "technique": n.get("technique", TECH), "level": "model_checking", "level_note": n["note"]})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet; the solver-based approach is described in DESIGN.md")})
m = {"version": 1, "setup_cmd": "bash engine/build.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. Engine sources in engine/, harnesses in harness/, drivers in checks/. /repo's library sources are compiled to bitcode from the current working tree on every run."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not claimed:", [x["property"] for x in na])
