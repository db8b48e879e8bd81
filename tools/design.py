#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | property | needs |", "|---|---|---|"]
metas = []
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/" + d + "/meta.json"))
    metas.append((m["property"], d, m["needs"]))
for p, d, n in sorted(metas):
    rows.append("| %s | %s | %s |" % (d, p, n))
s = open(V + "/DESIGN.md").read()
table = "\n".join(rows)
if "@SEEDED@" in s:
    s = s.replace("@SEEDED@", table)
else:
    s = re.sub(r"\| planted bug \|.*?(?=\n\n)", lambda _: table, s, flags=re.S)
open(V + "/DESIGN.md", "w").write(s)
