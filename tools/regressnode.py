"""The repository's hand-written Node.js tests (regress/nodejs), run with the stand-ins (not part of any check)."""
import sys, os, glob, subprocess; sys.path.insert(0, "/verif/lib")
import nrun
bad = 0
for t in sorted(glob.glob("/repo/regress/nodejs/*.ts")):
    o = t[:-3] + ".ort"
    if not os.path.exists(o): continue
    src = subprocess.run(["/repo/ort-nodejs", "-ve", o], capture_output=True, text=True).stdout + "\n" + open(t).read()
    a = nrun.node().ask({"cmd": "script", "schema": subprocess.run(["/repo/ort-sql", o], capture_output=True, text=True).stdout, "src": src})
    if a.get("v") is not True: print(t, str(a)[:300]); bad += 1
print("failed:", bad)
