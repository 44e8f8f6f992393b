#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from tools/props.py (the single source of both)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_APPLICABLE, HOOKS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + "/properties.jsonl", "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p.get("observe", []), "hook_needed": p.get("hook")}}) + "\n")
na = {x["property"] for x in NOT_APPLICABLE}
man = {"version": 1, "setup_cmd": "bash setup.sh", "hooks": HOOKS,
       "checks": [{"property": p["id"],
                   "quick_cmd": f"python3 checks/{p['id']}/check.py quick",
                   "thorough_cmd": f"python3 checks/{p['id']}/check.py thorough",
                   "evidence_file": f"evidence/{p['id']}.json",
                   "technique": p["technique"], "level": p.get("level", "exploration"),
                   "level_note": p["note"]} for p in PROPS if p["id"] not in na],
       "not_applicable": NOT_APPLICABLE,
       "notes": "All checks rebuild /repo with /opt/vp/build.sh (forcing the boot stage when anything changed) and run the resulting system."}
if not HOOKS: man.pop("hooks")
json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1)
