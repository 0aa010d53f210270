#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os, re
here = os.path.dirname(os.path.abspath(__file__))
NOTE = {}
exec(open(os.path.join(here, "notes.py")).read())
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]; f = "checks/%s.py" % i.lower()
    if i in CLAIM and os.path.exists(os.path.join(here, f)):
        checks.append({"property": i, "quick_cmd": "python3 " + f, "thorough_cmd": "VERIF_TIER=thorough python3 " + f,
                       "evidence_file": "evidence/%s.json" % i, "technique": CLAIM[i][0], "level": "exploration", "level_note": CLAIM[i][1]})
    else:
        na.append({"property": i, "reason": NOTE.get(i, "no check built yet; not claimed")})
m = {"version": 1, "setup_cmd": "python3 lib/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks: everything is observed from outside (tools, generated code, databases). Checks build /repo's sources into /verif/.work."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
