#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
NA = {}
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({
            "property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": c.get("technique", "property-based testing: generated operation histories against a reference model, with shrinking"),
            "level": c.get("level", "exploration"),
            "level_note": c.get("level_note", "Random search over generated histories with AddressSanitizer; trusts the reference model and the engine (harness/vpt*), never establishes absence."),
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "python3 -c \"import sys; sys.path.insert(0,'tools'); import checks\" && ninja --version && g++ --version",
     "checks": checks, "not_applicable": na,
     "notes": "Every check compiles harness/ against /repo/seq in build/<ID> and rewrites evidence/<ID>.json; see DESIGN.md. No hooks in /repo are needed: only the public API is used."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
