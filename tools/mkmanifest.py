#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import checks
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 lib/build.py asan drv_tensor", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s quick" % i,
                            "thorough_cmd": "python3 check.py %s thorough" % i,
                            "evidence_file": "evidence/%s.json" % i,
                            "technique": checks.TECH[i], "level": checks.LEVEL[i], "level_note": checks.NOTE[i]})
    else:
        m["not_applicable"].append({"property": i, "reason": checks.NOTYET.get(i, "not built yet: see DESIGN.md for the plan")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
