#!/usr/bin/env python3
"""Writes MANIFEST.json from registry.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from registry import PROPS
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PROPS:
        q = PROPS[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                       "technique": q.get("technique", "runtime monitoring against a reference model"),
                       "level": q.get("level", "exploration"), "level_note": q.get("note", "Held on the executions observed; see coverage in the evidence.")})
    else:
        na.append({"property": i, "reason": "no monitor built yet"})
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
     "notes": "check.py builds from /repo's working tree into a scratch directory. No hooks are committed to /repo: instrumentation is applied at check time through a build overlay generated from the current sources."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(checks), "claimed,", len(na), "not")
