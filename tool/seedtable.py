#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | caught by | needs |", "|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["property"], m["needs"]))
s = open(V + "/DESIGN.md").read()
h = "## 8. Planted bugs and the check that reports each\n"
s = s.split(h)[0].replace("SEEDTABLE\n", "").rstrip() + "\n\n" + h + "\nAll are reported by the check of their own property.\n\n" + "\n".join(rows) + "\n"
open(V + "/DESIGN.md", "w").write(s)
