#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os
from checks import CHECKS
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({
            "property": i, "quick_cmd": f"python3 run.py {i}", "thorough_cmd": f"python3 run.py {i}",
            "technique": c["technique"], "level": c["level"],
            "level_note": c.get("note", "Every observed execution is judged by an oracle that is independent of the library; holds for the types, values, inputs and schedules that were run (see the evidence file), nothing is proved beyond them.") + " Trusts: " + "; ".join(c["assumptions"]) + ".",
        })
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
m["notes"] = "No hooks were added to /repo: the monitors observe the library through its public functions, instrumented readers, writers and hash functions, memory snapshots, and compiler instrumentation (race detector, address sanitizer, checkptr). Fixes of genuine defects are listed in known_findings.json."
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
