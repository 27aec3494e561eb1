#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the check table and the property list."""
import json, os, sys
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(R, "engine"))
import props
ids = [json.loads(l)["id"] for l in open(os.path.join(R, "properties.jsonl"))]
NA = props.NA
checks = []
for i in ids:
    if i not in props.PROPS: continue
    p = props.PROPS[i]
    checks.append({"property": i, "quick_cmd": "./check.sh " + i, "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + i, "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": [{"property": i, "reason": NA[i]} for i in ids if i not in props.PROPS],
     "notes": "No hooks in /repo: the extractor reads the unmodified crate. Genuine defects found and repaired are listed in known-findings.json."}
with open(os.path.join(R, "MANIFEST.json"), "w") as f: json.dump(m, f, indent=1); f.write("\n")
print(len(checks), "checks,", len(m["not_applicable"]), "not applicable")
