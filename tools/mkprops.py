#!/usr/bin/env python3
"""Regenerate properties.jsonl from tools/properties.py and MANIFEST.json from
it and vf/props.py (both outputs are committed)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, os.path.join(V, "tools"))
from properties import P, HOOKS, NOTES
from vf.props import PROPS

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        q = {k: v for k, v in p.items() if k != "na"}
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
checks, na = [], []
for p in P:
    i = p["id"]
    if "na" in p:
        na.append({"property": i, "reason": p["na"]})
        continue
    c = PROPS[i]
    checks.append({"property": i, "quick_cmd": f"python3 check.py {i} quick", "thorough_cmd": f"python3 check.py {i} thorough",
                   "evidence_file": f"evidence/{i}.json", "technique": c.get("technique", "contracts on the compiled functions, discharged by Kani/CBMC for all inputs"),
                   "level": c["level"], "level_note": c["note"], **({"theorems": c["theorems"]} if "theorems" in c else {})})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na, "notes": NOTES}
if HOOKS:
    m["hooks"] = HOOKS
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
