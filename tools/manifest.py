#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py (and keeps it in step with properties.jsonl)."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(H + "/properties.jsonl")]
checks = []
for i in ids:
    if i not in PROPS:
        assert i in NOT_APPLICABLE, i
        continue
    p = PROPS[i]
    crates = ", ".join(p.get("harness", ["harness"]))
    checks.append({
        "property": i,
        "quick_cmd": f"python3 check.py {i}",
        "thorough_cmd": f"python3 check.py {i} --tier thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": "contract-based deductive verification (Verus) of functions extracted from /repo on every run: unit " + ", ".join(p["units"]) + f"; bounded stand-in and failing-input search: {crates}",
        "level": p.get("level", "proof"),
        "level_note": p.get("note", "Every obligation of the listed contracts is discharged by Verus/Z3 for all inputs; the random cases beside it are bounded and never counted as proved.") + " Assumes: " + "; ".join(p.get("assumptions", [])) + ".",
    })
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
     "not_applicable": [{"property": i, "reason": NOT_APPLICABLE[i]} for i in ids if i in NOT_APPLICABLE],
     "notes": "No hooks in /repo are needed: functions are extracted from the unchanged source, and the bounded stand-in uses the public API."}
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
