"""Coverage-guided fuzzing (libFuzzer) of the library behind the tools: parser, outputs, differences and translations."""
import os, glob, random, re, subprocess, shutil, hashlib, time, fcntl
import ortbuild, ortgen, mutate
D = os.path.join(os.path.dirname(os.path.abspath(__file__)), "fuzz")
DICT = ("all any asc autoinc bit bitfield bits blob cascade comment count date dec default default delete desc distinct email enum epoch field ge grouprow gt inc insert int isnotnull isnull isunset item iterate jslabel le "
        "like limit list lt maxrow minrow name neq noexport none notnull null nullify offset order password real restrict role roles rowid search set strcat streq strneq struct text unique update actdel actup cat eq and or format").split()
ENV = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "LC_ALL": "C.UTF-8", "TZ": "UTC", "ASAN_OPTIONS": "detect_leaks=1:allocator_may_return_null=1:abort_on_error=0", "UBSAN_OPTIONS": "print_stacktrace=1"}

def build():
    d = ortbuild.get("fuzz"); x = os.path.join(d, "ortfuzz"); src = os.path.join(D, "ortfuzz.c")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:12]; x += "-" + h
    with open(os.path.join(ortbuild.WORK, "lock-lfuzz"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(x):
            ortbuild.sh(["clang", "-O1", "-g", "-w", "-fsanitize=fuzzer,address,undefined", "-fno-sanitize=nonnull-attribute", "-fno-sanitize-recover=undefined", "-I", d, "-o", x + ".tmp", src, os.path.join(d, "liball.a"), "-lexpat"], d)
            os.rename(x + ".tmp", x)
    return x

def seeds(d, seed, tools, n=400):
    """Configurations of the repository and of the generator, pairs of them, translations of them."""
    os.makedirs(d); r = random.Random(seed); A = []
    for f in glob.glob(os.path.join(ortbuild.REPO, "regress", "**", "*.ort"), recursive=True):
        b = open(f, "rb").read()
        if len(b) < 4096 and b"\0" not in b: A.append(b)
    R = len(A)
    for _ in range(n):
        p = ortgen.Prof(exotic=r.choice([0, .3, .9]), structs=(1, 3), roles=.6)
        A.append(ortgen.render(ortgen.gen(r, p)).encode())
    for i, a in enumerate(A):
        open(os.path.join(d, "a%d" % i), "wb").write(a)
        if i % 3 == 0: open(os.path.join(d, "b%d" % i), "wb").write(a + b"\0" + (mutate.mutate(r, a, r.choice(A)).replace(b"\0", b"") if r.random() < .5 else r.choice(A)))
        if i % 4 == 0:
            f = os.path.join(d, "tmp.ort"); open(f, "wb").write(a)
            x = subprocess.run([os.path.join(tools, "ort-xliff"), f], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=ENV)
            os.unlink(f)
            if x.returncode == 0:
                t = re.sub(rb"</source>", lambda _: b"</source><target>t%d</target>" % r.randint(0, 9) if r.random() < .8 else b"</source>", x.stdout)
                open(os.path.join(d, "x%d" % i), "wb").write(a + b"\0\0" + t)
    with open(d + ".dict", "w") as f: f.write("".join('"%s"\n' % k for k in sorted(set(DICT))) + '"\\x00"\n"{"\n"};"\n":"\n"."\n"<target>"\n"</target>"\n"<source>"\n"<trans-unit id=\\"1\\">"\n')
    return len(A)

def once(x, path, timeout=60):
    try:
        p = subprocess.run([x, "-timeout=25", path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, timeout=timeout)
        return p.returncode, p.stderr.decode("utf-8", "replace")
    except subprocess.TimeoutExpired: return None, "timeout"

def fuzz(root, tools, seed, seconds, workers=8, runs=None):
    """Returns (statistics, inputs which fail)."""
    x = build(); d = os.path.join(root, "lf"); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    n = seeds(os.path.join(d, "seeds"), seed, tools); P = []
    def corpus(w):
        c = os.path.join(d, "corpus" if runs is None else "corpus%d" % w); os.makedirs(c, exist_ok=True)
        return c
    for w in range(workers):
        a = os.path.join(d, "w%d-" % w); log = open(os.path.join(d, "log%d" % w), "wb")
        P.append(subprocess.Popen([x, "-seed=%d" % (seed * 100 + w + 1), "-max_total_time=%d" % seconds, "-timeout=25", "-rss_limit_mb=3000", "-max_len=6000", "-dict=" + os.path.join(d, "seeds.dict"), "-artifact_prefix=" + a,
                                   "-reload=%d" % (runs is None), "-print_final_stats=1"] + (["-runs=%d" % runs] if runs else []) + [corpus(w), os.path.join(d, "seeds")], stdout=subprocess.DEVNULL, stderr=log, env=ENV, cwd=d))
    runs = 0; cov = 0
    for w, p in enumerate(P):
        try: p.wait(seconds + 300)
        except subprocess.TimeoutExpired: p.kill(); p.wait()
        t = open(os.path.join(d, "log%d" % w), "rb").read().decode("utf-8", "replace")
        m = re.findall(r"stat::number_of_executed_units: (\d+)", t); runs += int(m[-1]) if m else max([int(v) for v in re.findall(r"^#(\d+)", t, re.M)], default=0)
        cov = max([cov] + [int(v) for v in re.findall(r" cov: (\d+)", t)])
    bad = []
    for f in sorted(glob.glob(os.path.join(d, "w*-crash-*")) + glob.glob(os.path.join(d, "w*-leak-*")) + glob.glob(os.path.join(d, "w*-timeout-*")) + glob.glob(os.path.join(d, "w*-oom-*"))):
        bad.append(open(f, "rb").read())
    st = {"executions": runs, "edges": cov, "seeds": n, "corpus": sum(len(os.listdir(c)) for c in glob.glob(os.path.join(d, "corpus*"))), "seconds": seconds, "failing inputs": len(bad)}
    return st, bad

if __name__ == "__main__":
    import sys
    st, bad = fuzz(sys.argv[1], ortbuild.get("plain"), int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]) if len(sys.argv) > 4 else 8)
    print(st)
