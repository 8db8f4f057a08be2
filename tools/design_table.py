#!/usr/bin/env python3
"""Write the table of planted bugs into DESIGN.md from seeded/*/meta.json and tools/caught.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = {}
p = V + "/tools/caught.json"
if os.path.exists(p):
    caught = json.load(open(p))
rows = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"), ", ".join(caught.get(i, [])) or "not tried"))
t = open(V + "/DESIGN.md").read()
t = re.sub(r"SEEDED_TABLE|\| bug \| property.*?(?=\n\n|\n*\Z)", lambda _: "\n".join(rows), t, flags=re.S)
open(V + "/DESIGN.md", "w").write(t)
