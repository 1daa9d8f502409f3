#!/usr/bin/env python3
"""Regenerates the planted-bug table of DESIGN.md from seeded/*/meta.json."""
import json, glob, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | property (check that catches it) | what it breaks | needs |", "|---|---|---|---|"]
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(f))
    c = m.get("caught_by", m["property"])
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), c, m["what_it_breaks"], m["needs"]))
p = root + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"<!-- seeded -->.*?<!-- /seeded -->", lambda _: "<!-- seeded -->\n" + "\n".join(rows) + "\n<!-- /seeded -->", s, flags=re.S)
open(p, "w").write(s)
