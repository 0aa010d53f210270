#!/usr/bin/env python3
"""mut.py SEED COUNT FILE... : random small changes to FILEs of a copy of /repo, each judged by the checks that concern the file.
Prints survivors.  Runs entirely in /tmp/mut.SEED (a copy of the repository and one of /verif)."""
import sys, os, re, random, subprocess, shutil, time
seed, count = int(sys.argv[1]), int(sys.argv[2]); files = sys.argv[3:]
B = "/tmp/mut.%d" % seed
GENC = ["C12", "C13", "C14", "C16", "C17", "C19", "C15", "C18"]
TS = ["C20", "C22", "C21"]
CORE = ["C01", "C02", "C03", "C05", "C04"]
MAP = {"lang-c-source.c": GENC, "lang-c-header.c": ["C12", "C13", "C24", "C17", "C19"], "lang-c.c": GENC, "lang-nodejs.c": TS + ["C24"], "lang-javascript.c": ["C23", "C24"],
       "ortPrivate.ts": ["C23"], "lang.c": ["C27", "C13", "C14", "C25", "C20", "C12", "C16"], "lang-sql.c": ["C29", "C06", "C07", "C27"], "linker_aliases.c": ["C27", "C14"], "log.c": ["C28", "C29"], "config.c": ["C28"], "sqldiff.c": ["C07"], "diff.c": ["C08", "C07"],
       "maindiff.c": ["C08"], "writer-diff.c": ["C08"], "audit.c": ["C09"], "audit-json.c": ["C09"], "mainaudit.c": ["C09"], "auditq.c": ["C09"],
       "lang-json.c": ["C10", "C24"], "lang-xliff.c": ["C11"], "xliff.c": ["C11"], "writer.c": ["C03", "C05"], "jsmn.c": ["C18"], "lang-c-manpage.c": ["C12"],
       "lang-rust.c": ["C25", "C24"], "ort-json.ts": ["C30", "C10"]}
def checks(f): return MAP.get(f) or (["C29", "C01", "C03", "C06", "C05", "C04", "C10", "C09", "C08", "C27", "C02"])
SUBS = [(r"(?<![!=])==(?!=)", "!="), (r"!=(?!=)", "=="), (r"!==", "==="), (r"===", "!=="), (r"(?<![<\-=])<(?![<=])", "<="), (r"(?<![>\-])>(?![>=])", ">="), (r"<=", "<"), (r">=", ">"), (r"&&", "||"), (r"\|\|", "&&"),
        (r"\+ 1\b", ""), (r"- 1\b", ""), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\+\+", ""), (r"(?<=[( ])!(?=[a-zA-Z(])", ""), (r"\bcontinue;", ";"), (r"\bbreak;", ";"),
        (r"\bFIELD_NULL\b", "FIELD_ROWID"), (r"\bFIELD_ROWID\b", "FIELD_NULL"), (r"\bFTYPE_EPOCH\b", "FTYPE_PASSWORD"), (r"\bFTYPE_BLOB\b", "FTYPE_TEXT"), (r"\bFTYPE_BITFIELD\b", "FTYPE_STRUCT"),
        (r"\bUP_MODIFY\b", "UP_DELETE"), (r"^\s*case \w+:$", ""), (r"\bTAILQ_FIRST\b\((\w[^,()]*)\)", None), (r"\bsource\b", "target"), (r"\btarget\b", "source"),
        (r"^\t+(\w+) = [^=].*;$", ""), (r"^\t+\w[\w.>-]*(\(.*\));$", ""), (r"^\t+(\w+\+\+|\w+--);$", ""), (r"\breturn 1;", "return 0;"), (r"\breturn 0;", "return 1;"),
        (r"%PRId64", "%d"), (r"\|null", ""), (r"\bnull\b", "undefined"), (r"\bi\b", "(i + 1)"), (r"asIntN", "asUintN"), (r"\+ 1\)", ")"), (r"\bpos\b", "(pos + 1)"),
        (r" DESC", " ASC"), (r"ROLLBACK", "COMMIT"), (r"default", "none"), (r"\brr\b", "r"), (r"\bSTRCT_HAS_\w+", "0"), (r"-1\b", "0"), (r">>> 16", ">>> 15"), (r"this\.#role", "'default'"), (r"first\b", "1"),
        (r"\bMODTYPE_(\w+)", "MODTYPE_SET"), (r"\bOPTYPE_STREQ\b", "OPTYPE_EQUAL"), (r"OPTYPE_ISUNARY", "!OPTYPE_ISUNARY")]
IO = re.compile(r"EOF|fprintf|fputs|fputc|printf|alloc|strdup|NULL\)? *(return|goto)|assert|errno|warn|err\(|free\(|^\s*(/?\*|//)|gen_comment|#include|static const|ort_msg|perror|< 0|col\b|rc\b|sz\b|jsdoc|@param|tabs|indent|== NULL\b|#if|#e")
def candidates(text, f):
    out = []; inc = False
    L = text.split("\n"); infn = False; cm = False
    for i, l in enumerate(L):
        if "/*" in l and "*/" not in l: cm = True
        if "*/" in l: cm = False; continue
        if cm: continue
        if f.endswith(".c"):
            if l == "{": infn = True
            if l == "}": infn = False
            if not infn: continue
        if IO.search(l) and random.random() > .04: continue
        if re.match(r"^\s*return [01];$", l) and re.search(r"EOF|< 0|!gen|!|NULL", L[i - 1]): continue
        if re.match(r"^\t*(const |static |struct |size_t|int\b|char|enum )", l): continue
        for pat, rep in SUBS:
            if rep is None: continue
            for m in re.finditer(pat, l):
                out.append((i, l[:m.start()] + rep + l[m.end():]))
    return out
def sh(c, **k): return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
random.seed(seed)
shutil.rmtree(B, ignore_errors=True); os.makedirs(B)
sh("git -C /repo archive HEAD | (mkdir -p %s/repo && tar -x -C %s/repo); cp /repo/config.h /repo/Makefile.configure %s/repo/ 2>/dev/null" % (B, B, B), shell=True)
sh("mkdir -p %s/verif && cd /verif && cp -r checks lib KNOWN_FINDINGS* *.json *.jsonl *.py %s/verif/" % (B, B), shell=True)
pool = []
orig = {}
for f in files:
    orig[f] = open(os.path.join(B, "repo", f)).read()
    c = candidates(orig[f], f); random.shuffle(c); pool.append([(f,) + x for x in c])
env = dict(os.environ, ORT_REPO=B + "/repo", VERIF_SEED="1", VERIF_TIER="quick", VERIF_SHRINK="0")
n = 0; kill = 0; k = 0
while n < count and any(pool):
    q = pool[k % len(pool)]; k += 1
    if not q: continue
    f, i, nl = q.pop()
    L = orig[f].split("\n"); ol = L[i]
    if ol == nl: continue
    L[i] = nl
    p = os.path.join(B, "repo", f); open(p, "w").write("\n".join(L))
    r = sh(["python3", "-c", "import sys; sys.path.insert(0,'lib'); import ortbuild; ortbuild.get('plain')"], cwd=B + "/verif", env=env)
    if r.returncode == 0:
        n += 1; res = []
        t0 = time.time()
        for c in checks(f):
            try: r = sh(["python3", "checks/%s.py" % c.lower()] + (["--workers", os.environ["MUTW"]] if os.environ.get("MUTW") else []), cwd=B + "/verif", env=env, timeout=600)
            except subprocess.TimeoutExpired: res.append(c + " timeout"); continue
            o = r.stdout.decode(errors="replace")
            if r.returncode == 1 and "VIOLATION" in o: res.append(c); kill += 1; break
            if r.returncode: res.append("%s rc=%d %s" % (c, r.returncode, o.strip().split("\n")[-1][:100]))
        else: res.append("SURVIVED")
        print("%s:%d %s [%.0fs]\n  - %s\n  + %s" % (f, i + 1, " ".join(res), time.time() - t0, ol.strip(), nl.strip()), flush=True)
    open(p, "w").write(orig[f])
print("%d mutants, %d killed" % (n, kill))
shutil.rmtree(B, ignore_errors=True)
