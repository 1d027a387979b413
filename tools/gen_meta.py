#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (run after editing that file)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from props import PROPS, NOT_APPLICABLE
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": " ".join(p["statement"].split()),
            "quantifier": {"over": p["over"], "text": " ".join(p["quant"].split())},
            "why_tests_cant": " ".join(p["why"].split()),
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None},
        }, ensure_ascii=False) + "\n")
na = {x["property"] for x in NOT_APPLICABLE}
checks = []
for p in PROPS:
    if p["id"] in na:
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "bash check.sh %s" % p["id"],
        "thorough_cmd": "bash check.sh %s --tier thorough" % p["id"],
        "technique": p["technique"],
        "level": "exploration",
        "level_note": " ".join(p["note"].split()),
    })
m = {"version": 1, "setup_cmd": "bash check.sh --setup", "checks": checks, "not_applicable": NOT_APPLICABLE,
     "notes": "No hooks: every check drives the public API, the command line program or the Python package. See DESIGN.md."}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
for p in PROPS:
    assert len(p["title"]) <= 80, p["id"]
print(len(PROPS), "properties,", len(checks), "checks")
