#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "checks"))
import run
from meta import META, NA
t = run.table()
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    if p in t:
        tech, note = META[p]
        checks.append({"property": p, "quick_cmd": f"python3 checks/run.py {p}", "thorough_cmd": f"VERIF_TIER=thorough python3 checks/run.py {p}",
                       "evidence_file": f"evidence/{p}.json", "technique": tech, "level": "model_checking", "level_note": note})
na = [{"property": p, "reason": NA.get(p, "machinery not built yet")} for p in props if p not in t]
m = {"version": 1, "setup_cmd": "python3 checks/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: all checks compile /repo's sources with build files of their own (harness/build.py)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
