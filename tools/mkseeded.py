#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted | property | needs | check |", "|---|---|---|---|"]
for m in sorted(glob.glob(here + "/seeded/*/meta.json")):
    d = json.load(open(m))
    rows.append("| %s | %s | %s | %s |" % (
        os.path.basename(os.path.dirname(m)), d["property"], d["needs"],
        d.get("caught", "caught")))
p = here + "/DESIGN.md"
s = open(p).read()
a, b = "<!-- seeded -->\n", "<!-- /seeded -->\n"
s = s[:s.index(a) + len(a)] + "\n".join(rows) + "\n" + s[s.index(b):]
open(p, "w").write(s)
