#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_text.md and the properties, rules and planted bugs."""
import glob, json, os, re, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here)
from props import P, NA
from design_how import HOW
text = open(here + "/design_text.md").read()
bugs = {}
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(f)); bugs.setdefault(m["property"], []).append((f.split("/")[-2], m["needs"]))
out = []
for p in P:
    out.append("### %s  %s\n" % (p["id"], p["title"]))
    out.append("*Property.* %s\n" % p["statement"])
    out.append("*Anchors.* %s\n" % ", ".join("`%s`" % f for f in p["files"]))
    out.append("*Decided by.* %s. %s\n" % (p["technique"][0].upper() + p["technique"][1:], HOW.get(p["id"], "")))
    try:
        e = json.load(open(root + "/evidence/%s.json" % p["id"]))
        rules = [r["rule"] for r in e["coverage"]["rules"]]
        out.append("*Rules.* %s.\n" % ", ".join("`%s`" % r for r in sorted(set(rules))))
    except Exception:
        pass
    if p["note"]:
        out.append("*Bounds.* %s\n" % p["note"])
    out.append("*Beyond the tests.* %s\n" % p["why"])
    b = bugs.get(p["id"], [])
    out.append("*Planted bugs caught.* %s\n" % ("; ".join("`%s` (%s)" % x for x in b) if b else "none of its own"))
na = "\n".join("- **%s  %s** %s" % (p["id"], p["title"], p["reason"]) for p in NA) or "none"
open(root + "/DESIGN.md", "w").write(text.replace("@PROPERTIES@", "\n".join(out)).replace("@NA@", na).replace("@COUNT@", str(len(P))))
print(len(P), "properties,", sum(len(b) for b in bugs.values()), "planted bugs; without text:", [p["id"] for p in P if p["id"] not in HOW])
