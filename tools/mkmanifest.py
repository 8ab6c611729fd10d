#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and checkconfig.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from checkconfig import CHECKS
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
out = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
for p in props:
    c = CHECKS.get(p["id"])
    if not c:
        out["not_applicable"].append({"property": p["id"], "reason": "no check yet"})
        continue
    out["checks"].append({
        "property": p["id"],
        "quick_cmd": "./check.py " + p["id"], "thorough_cmd": "env VERIF_TIER=thorough ./check.py " + p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": c["technique"], "level": "exploration", "level_note": c["note"],
    })
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
