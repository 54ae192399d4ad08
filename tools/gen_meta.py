#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from props import PROPS
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
READY = set(open(os.path.join(ROOT, "tools/ready.txt")).read().split())
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]},
            "why_tests_cant": p["tests"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "hook_needed": None}}) + "\n")
checks, na = [], []
for p in PROPS:
    if p["na"]:
        na.append({"property": p["id"], "reason": p["na"]})
    elif p["id"] in READY:
        checks.append({"property": p["id"], "quick_cmd": f"bash ./check.sh {p['id']}",
                       "thorough_cmd": f"bash ./check.sh {p['id']} --thorough",
                       "technique": p["tech"], "level": "other", "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": "check under construction"})
m = {"version": 1, "setup_cmd": "bash ./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "All checks are static: a rustc_private driver dumps the resolved MIR of /repo's current tree, and Python rules decide each property on it. No hooks in /repo."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(PROPS), "properties;", len(checks), "claimed;", len(na), "not applicable")
