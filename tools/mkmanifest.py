#!/usr/bin/env python3
"""Writes MANIFEST.json from harness/table.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.path.join(V, "harness"))
from table import CHECKS
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TECH = "property-based testing: tape-based generators with coverage-guided mutation and shrinking, against an independent oracle"
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        s = CHECKS[i]
        checks.append({"property": i, "quick_cmd": "python3 harness/run.py %s --tier quick" % i, "thorough_cmd": "python3 harness/run.py %s --tier thorough" % i,
            "technique": s.get("technique", TECH), "level": s.get("level", "exploration"),
            "level_note": s.get("note", "Holds on every generated case of the run (counts in the evidence file); trusts the reference implementation in harness/ref.hpp, gcc and its sanitizers.")})
    else: na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "python3 harness/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the harness compiles /repo/src itself (see DESIGN.md, build variants). VERIF_SEED seeds every generator. Replay: python3 harness/run.py <property> --replay <file>."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "unclaimed")
