#!/usr/bin/env python3
"""MANIFEST.json from properties.jsonl and harness/registry.py"""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "harness"))
import registry
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.CHECKS and os.path.exists(os.path.join(here, "harness", "drivers", i.lower() + ".py")):
        r = registry.CHECKS[i]
        d = r.get("design", [])
        checks.append({"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i,
                       "technique": "TLA+ specification; TLC trace validation of recorded executions of the real code"
                                    + ("; TLC design model " + ", ".join(sorted({m for m, _ in d})) if d else "")
                                    + (r.get("technique_extra", "")),
                       "level": "model_checking",
                       "level_note": r.get("note", "Every recorded execution is replayed through the specification by TLC, which computes the required outcome of each operation independently of the code; scenarios are seeded random plus enumerated small models, so exhaustiveness is over the scenarios, not over all inputs.")})
    else:
        na.append({"property": i, "reason": registry.NOT_APPLICABLE.get(i, "check under construction")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the public API exposes the abstract state. See DESIGN.md."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
