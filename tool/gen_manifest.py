#!/usr/bin/env python3
"""Writes MANIFEST.json: claimed checks and, for every other property of properties.jsonl, the reason it is not claimed."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(H, "tool", "manifest_data.py")).read())
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": [], "not_applicable": []}
for i in ids:
    if i in CLAIMED and os.path.exists(os.path.join(H, "checks", i + ".py")):
        t, lv, note = CLAIMED[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 run.py " + i, "thorough_cmd": "python3 run.py " + i, "technique": t, "level": lv, "level_note": note})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no static check built yet")})
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed", [x["property"] for x in m["not_applicable"]])
