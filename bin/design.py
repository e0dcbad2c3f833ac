#!/usr/bin/env python3
"""Assembles DESIGN.md from its text (bin/design_text.md), known_findings.json and the planted bugs' notes (bin/catches.json)."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(V + "/bin/design_text.md").read()
k = json.load(open(V + "/known_findings.json"))["findings"]
fixes = "\n".join("* `%s` %s: %s" % (f["commit"], f["property"], f["what"]) for f in k if f["status"] == "fixed")
c = json.load(open(V + "/bin/catches.json"))
seeds = "| planted bug | needs | caught by | note |\n|---|---|---|---|\n"
for i in sorted(c):
    p = V + "/seeded/%s/meta.json" % i
    if os.path.exists(p):
        m = json.load(open(p))
        seeds += "| %s | %s | %s | %s |\n" % (i, m["needs"], c[i]["by"], c[i].get("note", ""))
open(V + "/DESIGN.md", "w").write(t.replace("@FIXES@", fixes).replace("@SEEDS@", seeds))
