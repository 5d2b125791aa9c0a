#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE + "/tools")
from props import PROPS, NA  # noqa: E402

P = "packages/"
with open(f"{HERE}/properties.jsonl", "w") as f:
    for p in PROPS + NA:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": [P + x for x in p["files"]],
                        "mechanism": [{"name": n, "where": P + w} for n, w in p["mech"]],
                        "observe_at": p.get("observe", []), "hook_needed": None},
        }) + "\n")
TECH = "static must-fact and value-flow dataflow analysis over MIR"
checks = []
for p in PROPS:
    checks.append({
        "property": p["id"], "quick_cmd": f"python3 sa/check.py {p['id']}",
        "thorough_cmd": f"python3 sa/check.py {p['id']} thorough",
        "technique": p.get("tech", TECH), "level": "other",
        "level_note": p["note"],
    })
with open(f"{HERE}/MANIFEST.json", "w") as f:
    json.dump({"version": 1, "setup_cmd": "python3 sa/extract.py", "checks": checks,
               "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
               "notes": "Every check rebuilds the resolved program from /repo's working tree (sa/extract.py) and judges it "
                        "with the rules of sa/rules_*.py; see DESIGN.md."}, f, indent=1)
print(len(PROPS), "claimed,", len(NA), "not applicable")
