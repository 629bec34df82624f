#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (ALSO: further checks which catch one)."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALSO = {}
rows = ["| bug | needs | what it breaks | caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir(ROOT + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (ROOT, d)))
    text = " ".join(m["what_it_breaks"].split()).replace("|", "\\|")
    needs = " ".join(m["needs"].split()).replace("|", "\\|")
    rows.append("| %s | %s | %s | %s |" % (d, needs, text, ", ".join([m["property"]] + ALSO.get(d, []))))
s = open(ROOT + "/DESIGN.md").read()
a, b = "<!-- planted -->\n", "<!-- /planted -->\n"
i, j = s.index(a) + len(a), s.index(b)
open(ROOT + "/DESIGN.md", "w").write(s[:i] + "\n".join(rows) + "\n" + s[j:])
