#!/usr/bin/env python3
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props as p
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + "/properties.jsonl", "w") as o:
    for e in sorted(p.CLAIMED + p.NA, key=lambda e: e["id"]):
        assert len(e["title"]) <= 80, e["title"]
        assert e["statement"].count(". ") <= 2, (e["id"], e["statement"].count(". "))
        o.write(json.dumps({"id": e["id"], "title": e["title"], "statement": e["statement"],
                            "quantifier": {"over": e["over"], "text": e["qtext"]}, "why_tests_cant": e["why"],
                            "anchors": {"files": e["files"], "mechanism": [{"name": a, "where": b} for a, b in e["mech"]]}}) + "\n")
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": [{"property": e["id"], "quick_cmd": "python3 check.py %s quick" % e["id"], "thorough_cmd": "python3 check.py %s thorough" % e["id"],
                 "technique": e["technique"], "level": "other", "level_note": e["note"]} for e in p.CLAIMED],
     "not_applicable": [{"property": e["id"], "reason": e["reason"]} for e in p.NA],
     "notes": "All checks are static: check.py builds the libTooling extractor (tool/) if needed, extracts the current /repo and applies the rule."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
