"""The shim of sqlbox, kcgi and crypt, compiled once per flavour."""
import os, hashlib, glob, fcntl, subprocess
import ortbuild
D = os.path.join(os.path.dirname(os.path.abspath(__file__)), "cshim")
def get(asan=False):
    h = hashlib.sha256()
    for f in sorted(glob.glob(D + "/*")): h.update(open(f, "rb").read())
    o = os.path.join(ortbuild.WORK, "shim-%s-%s.o" % ("asan" if asan else "plain", h.hexdigest()[:12]))
    os.makedirs(ortbuild.WORK, exist_ok=True)
    with open(os.path.join(ortbuild.WORK, "lock-shim"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(o):
            fl = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"] if asan else []
            subprocess.run(["gcc", "-O1", "-g", "-w", "-c", "-o", o + ".tmp", D + "/shim.c"] + fl, check=True)
            os.rename(o + ".tmp", o)
    return o
