#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
rows = ["| id | needs | breaks | caught by |", "|---|---|---|---|"]
extra = json.load(open("tools/caught.json")) if os.path.exists("tools/caught.json") else {}
for m in sorted(glob.glob("seeded/*/meta.json")):
    i = m.split("/")[1]
    d = json.load(open(m))
    rows.append("| %s | %s | %s | %s |" % (i, d["needs"], d["what_it_breaks"], extra.get(i, d["property"])))
s = open("DESIGN.md").read()
a, b = "<!-- planted -->\n", "<!-- end of planted -->\n"
s = s[:s.index(a) + len(a)] + "\n".join(rows) + "\n" + s[s.index(b):]
open("DESIGN.md", "w").write(s)
