#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and config.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import P
from config import PROPS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + "/properties.jsonl", "w") as f:
    for p in sorted(P, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, p["id"]
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["observe"], "hook_needed": None}
        if p["state"]:
            a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
checks = []
for p in sorted(P, key=lambda p: p["id"]):
    if p["id"] not in PROPS:
        print("no check:", p["id"]); continue
    checks.append({"property": p["id"], "quick_cmd": "python3 tools/check.py %s --tier quick" % p["id"],
                   "thorough_cmd": "python3 tools/check.py %s --tier thorough" % p["id"],
                   "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
ids = {p["id"] for p in P}
for k in PROPS:
    assert k in ids, k
na = json.load(open(V + "/tools/not_applicable.json")) if os.path.exists(V + "/tools/not_applicable.json") else []
json.dump({"version": 1, "setup_cmd": "python3 tools/check.py --setup", "checks": checks, "not_applicable": na},
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks")
