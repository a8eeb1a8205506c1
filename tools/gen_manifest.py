#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": [],
     "notes": "check.sh builds the harness (harness/*_test.go, through go's -overlay and -modfile) with /repo's current tree, runs it in several worker processes and writes evidence/<ID>.json. No hooks in /repo are needed."}
for p in props:
    i = p["id"]
    if i not in CHECKS:
        m["not_applicable"].append({"property": i, "reason": "the check is still being built (see DESIGN.md)"})
        continue
    c = CHECKS[i]
    m["checks"].append({"property": i, "quick_cmd": "./check.sh " + i, "thorough_cmd": "./check.sh " + i, "evidence_file": f"evidence/{i}.json",
                        "technique": "property-based testing: " + c["technique"], "level": c.get("level", "exploration"),
                        "level_note": c.get("note", "Sampled exploration of the real code with an independent oracle; a finding is a concrete failing run.") + " Assumes: " + "; ".join(c.get("assumptions", ["nothing beyond the Go toolchain"])) + "."})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
