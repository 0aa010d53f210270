#!/usr/bin/env python3
"""plant.py write DEFS.py [id...]  -- (re)creates seeded/<id>/ from definitions
plant.py try id...              -- applies to /repo: build, stable tests, demo; undo; demo; then the property's check
plant.py check id... [-- extra] -- only the property's check (and those given by --with C01,C02)
Definitions: a list BUGS of dicts: id, property, edits [(file, old, new)], needs, breaks, demo (shell body), files {name: text}."""
import sys, os, json, subprocess, shutil, importlib.util, time, re
V = os.environ.get("PLANT_V", "/verif"); R = "/repo"; BASE = "de6ef14"
def sh(cmd, **kw): return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
def load(path):
    sp = importlib.util.spec_from_file_location("defs", path); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m); return m.BUGS
HEAD = """#!/bin/bash
# exit 0: the property holds; non-zero: it is broken.  Run with cwd /repo after a build.
here=$(cd "$(dirname "$0")" && pwd)
export LC_ALL=C.UTF-8 TZ=UTC
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
"""
def write(b):
    d = os.path.join(V, "seeded", b["id"]); os.makedirs(d, exist_ok=True)
    tree = "/tmp/plant.tree"
    shutil.rmtree(tree, ignore_errors=True)
    sh(["git", "-C", R, "worktree", "prune"]); os.makedirs(tree)
    sh("git -C %s archive HEAD | tar -x -C %s && cd %s && git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm base" % (R, tree, tree))
    for f, o, n in b["edits"]:
        p = os.path.join(tree, f); s = open(p).read()
        if s.count(o) != 1: print("!! %s: %s: %d matches" % (b["id"], f, s.count(o))); return False
        open(p, "w").write(s.replace(o, n))
    diff = sh(["git", "-C", tree, "diff"]).stdout.decode()
    orig = 0; gone = 0
    for f in {e[0] for e in b["edits"]}:
        bl = sh(["git", "-C", R, "blame", "-s", "--root", f]).stdout.decode(errors="replace").splitlines()
        for h in re.findall(r"(?m)^@@ -(\d+)(?:,(\d+))?", sh(["git", "-C", tree, "diff", "-U0", f]).stdout.decode(errors="replace")):
            for k in range(int(h[0]), int(h[0]) + int(h[1] or 1)):
                gone += 1; orig += bl[k - 1].startswith(BASE)
    if orig < gone or not gone: print("?? %s: %d of %d changed lines are original" % (b["id"], orig, gone))
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    for n, t in b.get("files", {}).items(): open(os.path.join(d, n), "w").write(t)
    open(os.path.join(d, "demo.sh"), "w").write(HEAD + b["demo"].strip("\n") + "\n"); os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    shutil.rmtree(tree, ignore_errors=True)
    return True
def prop(i): return json.load(open("%s/seeded/%s/meta.json" % (V, i)))["property"]
def clean():
    if sh(["git", "-C", R, "status", "--porcelain"]).stdout.strip(): sys.exit("/repo is not clean")
def stable():
    bl = json.load(open("/opt/vp/BASELINE.json")); sh("bash /opt/vp/test.sh /tmp/plant.json")
    t = json.load(open("/tmp/plant.json"))
    def passed(x):
        for k in ("passed", "stable", "pass", "tests"):
            if k in x: return set(x[k]) if isinstance(x[k], list) else {a for a, v in x[k].items() if v in (True, "pass", "passed")}
    return sorted(passed(bl) - passed(t))
def demo(i):
    t = "/tmp/plant.demo"; shutil.rmtree(t, ignore_errors=True); shutil.copytree("%s/seeded/%s" % (V, i), t)
    for f in ("patch.diff", "meta.json"): os.unlink(os.path.join(t, f))
    r = sh(["bash", os.path.join(t, "demo.sh")], cwd=R, timeout=300); shutil.rmtree(t); return r
def check(i, which):
    out = []
    for w in which:
        t0 = time.time()
        r = subprocess.run(["python3", "checks/%s.py" % w.lower()], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
        o = r.stdout.decode(errors="replace")
        hit = r.returncode == 1 and "VIOLATION property=%s" % w in o
        out.append("%s:%s(%.0fs)" % (w, "CAUGHT" if hit else "missed rc=%d" % r.returncode, time.time() - t0))
        open("/tmp/plant.%s.%s.log" % (i, w), "w").write(o)
    return out
def main():
    a = sys.argv[1:]
    if a[0] == "write":
        bs = load(a[1])
        for b in bs:
            if len(a) > 2 and b["id"] not in a[2:]: continue
            print("write", b["id"], write(b))
        return
    mode = a[0]; ids = [x for x in a[1:] if not x.startswith("--")]; extra = [x[7:].split(",") for x in a if x.startswith("--with=")]
    if ids == ["all"]: ids = sorted(os.listdir(V + "/seeded"))
    clean()
    for i in ids:
        p = "%s/seeded/%s/patch.diff" % (V, i)
        r = sh(["git", "-C", R, "apply", p])
        if r.returncode: print(i, "DOES NOT APPLY", r.stdout.decode()); continue
        try:
            msg = []
            if mode == "try":
                r = sh("bash /opt/vp/build.sh")
                if r.returncode: print(i, "BUILD FAILS", r.stdout.decode()[-600:]); continue
                f = stable(); msg.append("tests ok" if not f else "TESTS FAIL %s" % f[:4])
                r = demo(i); msg.append("demo fails" if r.returncode else "DEMO PASSES WITH BUG")
            if mode in ("try", "check"): msg += check(i, extra[0] if extra else [prop(i)])
        finally:
            sh(["git", "-C", R, "checkout", "--", "."]); sh("bash /opt/vp/build.sh")
        if mode == "try":
            r = demo(i); msg.append("demo ok" if r.returncode == 0 else "DEMO FAILS ON CLEAN: " + r.stdout.decode()[-500:])
        print(i, prop(i), "; ".join(msg), flush=True)
main()
