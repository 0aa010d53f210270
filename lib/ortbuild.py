"""Builds the tools from /repo's working tree, outside /repo."""
import os, sys, hashlib, shutil, subprocess, fcntl, glob, time
from concurrent.futures import ThreadPoolExecutor
REPO = os.environ.get("ORT_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.path.join(VERIF, ".work")
TOOLS = {"ort": "main", "ort-audit": "mainaudit", "ort-audit-json": "audit-json", "ort-c-header": "cheader",
         "ort-c-manpage": "cmanpage", "ort-c-source": "csource", "ort-diff": "maindiff", "ort-javascript": "javascript",
         "ort-json": "json", "ort-nodejs": "nodejs", "ort-rust": "rust", "ort-sql": "sql", "ort-sqldiff": "sqldiff",
         "ort-xliff": "xliff"}
NOTLIB = set(TOOLS.values()) | {"test", "tests", "jsmn"}
FLAVOURS = {
    "plain": (["gcc"], ["-O1", "-g"]),
    "asan": (["gcc"], ["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize=nonnull-attribute", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]),
    "fuzz": (["clang"], ["-O1", "-g", "-fsanitize=fuzzer-no-link,address,undefined", "-fno-sanitize=nonnull-attribute", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]),
    "fi": (["gcc"], ["-O1", "-g", "-U_FORTIFY_SOURCE", "-fsanitize=address,undefined", "-fno-sanitize=nonnull-attribute", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]),
    "cov": (["gcc"], ["-O0", "-g", "--coverage"]),
}

FI = os.path.join(VERIF, "lib", "fi", "fi.c")
WRAP = "malloc calloc realloc reallocarray strdup strndup vasprintf asprintf fopen XML_ParserCreate fgetc fread read fputs fputc putc fwrite puts putchar vfprintf fprintf printf".split()

def sources():
    fs = []
    for pat in ("*.c", "*.h", "*.ts", "configure", "rust/*"):
        fs += glob.glob(os.path.join(REPO, pat))
    return sorted(f for f in fs if os.path.isfile(f))

def tree_hash(flavour=""):
    h = hashlib.sha256(repr(FLAVOURS.get(flavour)).encode())
    for f in sources() + ([FI] if flavour == "fi" else []):
        h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()[:16]

def sh(cmd, cwd):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        sys.stderr.write("build failed: %s\n%s\n" % (" ".join(cmd), r.stdout.decode(errors="replace")))
        raise SystemExit(3)

def config_h(d):
    """config.h: from the tree if it is there, otherwise from configure."""
    if os.path.exists(os.path.join(REPO, "config.h")) and os.path.getsize(os.path.join(REPO, "config.h")):
        shutil.copy(os.path.join(REPO, "config.h"), d)
        return
    env = dict(os.environ, CC="gcc", LC_ALL="C.UTF-8")
    for k in ("MAKEFLAGS", "CFLAGS", "CPPFLAGS", "LDFLAGS", "LDADD"): env.pop(k, None)
    shutil.copy(os.path.join(REPO, "configure"), d)
    subprocess.run(["sh", "./configure"], cwd=d, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)

def get(flavour="plain", extra=None, jobs=8):
    """Returns the directory with the tools built with that flavour."""
    os.makedirs(WORK, exist_ok=True)
    h = tree_hash(flavour)
    d = os.path.join(WORK, "build-%s-%s" % (flavour, h))
    with open(os.path.join(WORK, "lock-" + flavour), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(d, ".done")):
            os.utime(d)
            return d
        # keep only the few newest
        old = sorted(glob.glob(os.path.join(WORK, "build-%s-*" % flavour)), key=os.path.getmtime)
        for o in old[:-3]:
            shutil.rmtree(o, ignore_errors=True)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for f in sources():
            rel = os.path.relpath(f, REPO)
            os.makedirs(os.path.join(d, os.path.dirname(rel)), exist_ok=True)
            shutil.copy(f, os.path.join(d, rel))
        config_h(d)
        with open(os.path.join(d, "ort-paths.h"), "w") as f: f.write('#define SHAREDIR "%s"\n' % d)
        with open(os.path.join(d, "ort-version.h"), "w") as f:
            f.write('#ifndef ORT_VERSION_H\n#define ORT_VERSION_H\n#define ORT_VERSION "0.0.0"\n#define ORT_MAJOR 0\n#define ORT_MINOR 0\n#define ORT_BUILD 0\n#define ORT_VSTAMP 1\n#endif\n')
        cc, fl = FLAVOURS[flavour]
        cs = [os.path.basename(f)[:-2] for f in glob.glob(os.path.join(d, "*.c"))]
        cs = [c for c in cs if c not in ("test", "tests", "jsmn", "conftest")]
        with ThreadPoolExecutor(jobs) as ex:
            list(ex.map(lambda c: sh(cc + fl + ["-w", "-c", "-o", c + ".o", c + ".c"], d), cs))
        lib = [c + ".o" for c in sorted(cs) if c not in NOTLIB]
        sh(["ar", "rcs", "liball.a"] + lib, d)
        ld = []
        if flavour == "fi":
            sh(["gcc", "-O1", "-w", "-fno-omit-frame-pointer", "-fno-optimize-sibling-calls", "-c", "-o", "fi__.o", FI], d)
            sh(["objcopy", "--rename-section", ".text=fitext", "fi__.o"], d)
            ld = ["fi__.o"] + ["-Wl,--wrap=" + w for w in WRAP]
        if flavour != "fuzz":
            with ThreadPoolExecutor(jobs) as ex:
                list(ex.map(lambda t: sh(cc + fl + ["-o", t, TOOLS[t] + ".o"] + ld + ["liball.a", "-lexpat"], d), sorted(TOOLS)))
        open(os.path.join(d, ".done"), "w").close()
    return d

if __name__ == "__main__":
    for f in sys.argv[1:] or ["plain"]: print(get(f))
