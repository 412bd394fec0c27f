#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks below."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash bin/setup.sh", "checks": [], "not_applicable": []}
for i in ids:
    if i in props.CHECKS:
        tech, level, note = props.ABOUT[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 bin/check.py " + i,
                            "thorough_cmd": "VERIF_TIER=thorough python3 bin/check.py " + i,
                            "technique": tech, "level": level, "level_note": note})
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
with open(os.path.join(V, "MANIFEST.json"), "w") as h:
    json.dump(m, h, indent=1)
    h.write("\n")
