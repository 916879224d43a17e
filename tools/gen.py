#!/usr/bin/env python3
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import P, NA
root = os.path.dirname(here)
with open(root + "/properties.jsonl", "w") as f:
    for p in P + NA:
        assert len(p["title"]) <= 80, p["title"]
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "hook_needed": None}}
        if p["state"]:
            d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]]
        if p["observe"]:
            d["anchors"]["observe_at"] = p["observe"]
        f.write(json.dumps(d) + "\n")
m = {"version": 1, "setup_cmd": "./run.sh --build",
     "checks": [{"property": p["id"], "quick_cmd": "./run.sh %s quick" % p["id"], "thorough_cmd": "./run.sh %s thorough" % p["id"],
                 "technique": p["technique"], "level": "other", "level_note": p["note"]} for p in P],
     "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA]}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
print(len(P), "claimed", len(NA), "not applicable")
