#!/usr/bin/env python3
"""Writes MANIFEST.json from registry.py (development only)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from registry import NOT_APPLICABLE, PROPS  # noqa: E402

checks = []
for p, c in PROPS.items():
    checks.append({
        "property": p,
        "quick_cmd": f"VERIF_TIER=quick python3 tools/run.py check {p}",
        "thorough_cmd": f"VERIF_TIER=thorough python3 tools/run.py check {p}",
        "evidence_file": f"evidence/{p}.json",
        "technique": c.get("technique", "Verus contracts spliced onto the real functions; all obligations discharged by Z3"),
        "level": c.get("level", "proof"),
        "level_note": c["note"],
        **({"theorems": c["theorems"]} if c.get("theorems") else {}),
    })
m = {"version": 1, "setup_cmd": "python3 tools/run.py setup", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NOT_APPLICABLE.items()]}
known = {json.loads(l)["id"] for l in open(os.path.join(HERE, "..", "properties.jsonl"))}
claimed = {c["property"] for c in checks} | set(NOT_APPLICABLE)
print("unclaimed:", sorted(known - claimed))
json.dump(m, open(os.path.join(HERE, "..", "MANIFEST.json"), "w"), indent=1)
