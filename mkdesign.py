#!/usr/bin/env python3
"""Writes DESIGN.md: DESIGN.in with the table of planted changes put in."""
import json, glob, os
V = os.path.dirname(os.path.abspath(__file__))
C = json.load(open(V + "/catches.json")) if os.path.exists(V + "/catches.json") else {}
rows = []
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f)); i = os.path.basename(os.path.dirname(f))
    rows.append("| %s | %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"], m["needs"], C.get(i, "?")))
t = "| change | property | what it breaks | what it needs | caught by |\n|---|---|---|---|---|\n" + "\n".join(rows)
open(V + "/DESIGN.md", "w").write(open(V + "/DESIGN.in").read().replace("@TABLE@", t))
