#!/usr/bin/env python3
"""writes MANIFEST.json from the check modules present"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}  # id -> reason, for properties this technique cannot decide
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        checks.append({
            "property": i,
            "quick_cmd": "python3 run_check.py %s" % i,
            "thorough_cmd": "python3 run_check.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "symbolic execution of the real source, obligations decided by z3 (SMT), counterexamples replayed",
            "level": "model_checking",
            "level_note": "All values within the bounds stated in the evidence (sizes, label layouts, draws) are symbolic; reals model float64; counterexamples are replayed on the real code before being reported.",
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
