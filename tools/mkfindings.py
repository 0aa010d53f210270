#!/usr/bin/env python3
"""Writes /verif/KNOWN_FINDINGS from the fix commits of /repo (property tags below) and the recorded findings."""
import subprocess
TAG = {}
for l in open("/verif/tools/fixtags").read().splitlines():
    if l.strip(): k, v = l.split(None, 1); TAG[k] = v.split(",")
out = ["# fixed: property=<id> <commit> <what failed>      (repaired; suppresses nothing)",
       "# finding: property=<id> <key> <what fails>          (recorded, not repaired)", ""]
base = "de6ef14"
for l in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", base + ".."], text=True).splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix:"): continue
    tags = TAG.get(h[:7]) 
    if not tags: print("no tag for", l); tags = ["C02"]
    for t in tags: out.append("fixed: property=%s %s %s" % (t.strip(), h, s[4:].strip()))
out.append("")
try: out += open("/verif/tools/findings").read().splitlines()
except OSError: pass
open("/verif/KNOWN_FINDINGS", "w").write("\n".join(out) + "\n")
