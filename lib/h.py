"""Property-check harness: seeded generation, parallel evaluation, shrinking, evidence, replay."""
import os, sys, json, time, random, hashlib, subprocess, tempfile, shutil, argparse, multiprocessing, collections, traceback, copy, signal
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ortbuild, ortgen
VERIF = ortbuild.VERIF
T0 = time.time()

class Bad(Exception):
    """The property does not hold for this case."""
    def __init__(self, msg, detail=None):
        super().__init__(msg); self.msg = msg; self.detail = detail

class Skip(Exception):
    """The case cannot be evaluated (counted, never a violation)."""

class Res:
    def __init__(self, rc, out, err, timeout=False):
        self.rc = rc; self.out = out; self.err = err; self.timeout = timeout
    @property
    def text(self): return self.out.decode("utf-8", "replace")
    @property
    def errtext(self): return self.err.decode("utf-8", "replace")

ENV = {"PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", "LC_ALL": "C.UTF-8", "TZ": "UTC", "HOME": "/nonexistent",
       "ASAN_OPTIONS": "detect_leaks=1:abort_on_error=0:exitcode=99:allocator_may_return_null=1", "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=98", "LSAN_OPTIONS": "exitcode=97"}

def run(cmd, stdin=b"", cwd=None, timeout=120, env=None):
    if isinstance(stdin, str): stdin = stdin.encode()
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env or ENV)
    try:
        o, e = p.communicate(stdin, timeout=timeout)
        return Res(p.returncode, o, e)
    except subprocess.TimeoutExpired:
        p.kill(); o, e = p.communicate()
        return Res(None, o, e, True)

class Ctx:
    """Per-worker environment."""
    def __init__(self, check, dirs):
        self.check = check; self.dirs = dirs
        self.scratch = tempfile.mkdtemp(prefix="w", dir=check.root)
        self.seq = 0; self.tz = None
    def tool(self, name, *args, stdin=b"", flavour=None, timeout=120, cwd=None, env=None):
        d = self.dirs[flavour or self.check.FLAVOURS[0]]
        return run([os.path.join(d, name)] + list(args), stdin, cwd or self.scratch, timeout, env or (dict(ENV, TZ=self.tz) if self.tz else None))
    def write(self, name, data):
        if isinstance(data, str): data = data.encode("utf-8", "surrogateescape")
        p = os.path.join(self.scratch, name)
        with open(p, "wb") as f: f.write(data)
        return p
    def cfg(self, cfg, name="a.ort", style=None):
        return self.write(name, ortgen.render(cfg, style))
    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)
    # -- conveniences with the expectation of success
    def ok(self, name, *args, what=None, **kw):
        r = self.tool(name, *args, **kw)
        if r.timeout: raise Bad("%s did not terminate" % name)
        if r.rc != 0: raise Bad("%s failed (%s) on an accepted configuration" % (name, r.rc), r.errtext[-2000:])
        return r

def rng(*parts):
    return random.Random(hashlib.sha256("/".join(map(str, parts)).encode()).hexdigest())

_C = None
def _winit(check, dirs):
    global _C
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    _C = Ctx(check, dirs)
    import atexit
    multiprocessing.util.Finalize(_C, _C.close, exitpriority=10)
def _wrun(a):
    i, case = a
    ck = _C.check
    try:
        if case is None: case = ck.gencase(i)
        labels = ck.run(_C, case)
        return (i, "ok", labels or [], ck.digest(case), None, None)
    except Bad as b:
        return (i, "bad", [], ck.digest(case), case, (b.msg, b.detail))
    except Skip as s:
        return (i, "skip", [str(s)], "", None, None)
    except Exception as e:
        return (i, "err", [], "", case, traceback.format_exc())

class Check:
    ID = "C00"
    TECH = "property-based testing"
    FLAVOURS = ["plain"]
    N = {"quick": 200, "thorough": 5000}
    DEADLINE = {"quick": 600, "thorough": 6 * 3600}
    WORKERS = 8
    CHUNK = 2
    RULE = ""
    ASSUME = []
    LEVEL = "exploration"
    SHRINK = 300
    TZS = []                               # time zones the tools are run in
    MAXCONF = 3
    def gen(self, r, i): raise NotImplementedError
    def gencase(self, i):
        case = self.gen(rng(self.seed, self.ID, i), i)
        if self.TZS: case["tz"] = self.TZS[i % len(self.TZS)]
        return case
    def run(self, ctx, case): raise NotImplementedError
    def setup(self, dirs): pass
    def corpus(self): return []
    def probes(self, ctx): return []       # known findings still present: list of (key, what)
    def digest(self, case):
        return hashlib.sha256(json.dumps(case, sort_keys=True, default=str).encode()).hexdigest()[:16]
    def nontrivial(self, labels): return bool(labels)
    def reductions(self, case):
        if isinstance(case, dict) and "cfg" in case:
            for c in ortgen.reductions(case["cfg"]):
                d = dict(case); d["cfg"] = c; yield d
    def sample(self, case): 
        if isinstance(case, dict) and "cfg" in case:
            d = {k: v for k, v in case.items() if k != "cfg"}; d["cfg"] = ortgen.pretty(case["cfg"])
            return d
        return case
    def valid(self, ctx, case): return True
    # ------------------------------------------------------------------
    def shrink(self, ctx, case, msg):
        n = 0; t0 = time.time(); going = True; best = (case, msg)
        while going and n < self.SHRINK and time.time() - t0 < 90:
            going = False
            for c in self.reductions(best[0]):
                n += 1
                if n >= self.SHRINK or time.time() - t0 > 90: break
                try:
                    if not self.valid(ctx, c): continue
                    self.run(ctx, c)
                except Bad as b:
                    if b.msg.split(":")[0] == best[1][0].split(":")[0]:
                        best = (c, (b.msg, b.detail)); going = True; break
                except Exception: pass
        return best
    def main(self):
        ap = argparse.ArgumentParser()
        ap.add_argument("--replay"); ap.add_argument("--n", type=int); ap.add_argument("--seed"); ap.add_argument("--tier")
        ap.add_argument("--keep-going", action="store_true"); ap.add_argument("--case", type=int); ap.add_argument("--workers", type=int)
        a = ap.parse_args()
        self.seed = int(a.seed or os.environ.get("VERIF_SEED") or 1)
        self.tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
        if self.tier not in ("quick", "thorough"): self.tier = "quick"
        n = a.n or self.N[self.tier]
        if a.workers: self.WORKERS = a.workers
        self.t0 = time.time()
        if os.environ.get("VERIF_SHRINK"): self.SHRINK = int(os.environ["VERIF_SHRINK"])
        dirs = {f: ortbuild.get(f) for f in self.FLAVOURS}
        self.dirs = dirs
        self.setup(dirs)
        self.root = tempfile.mkdtemp(prefix="ortv-%s-" % self.ID)
        ctx = Ctx(self, dirs)
        try:
            if a.replay:
                case = json.load(open(a.replay))["case"]
                try:
                    print("replay: holds", self.run(ctx, case)); return 0
                except Bad as b:
                    print("VIOLATION property=%s replay=%s" % (self.ID, a.replay)); print(b.msg); print(b.detail); return 1
                except Skip as k: print("replay: skipped (%s)" % k); return 0
                except Exception:
                    print("VIOLATION property=%s replay=%s" % (self.ID, a.replay)); traceback.print_exc(); return 1
            if a.case is not None:
                case = self.gencase(a.case)
                print(json.dumps(self.sample(case), indent=1, ensure_ascii=False, default=str).replace("\\n", "\n"))
                try: print(self.run(ctx, case)); return 0
                except Bad as b: print("BAD", b.msg); print(b.detail); return 1
            return self.explore(ctx, dirs, n, a.keep_going)
        finally:
            ctx.close(); shutil.rmtree(self.root, ignore_errors=True)
    def explore(self, ctx, dirs, n, keep):
        cnt = collections.Counter(); labs = collections.Counter(); seen = set(); nt = set(); bads = []; errs = []; skips = collections.Counter()
        samples = []
        jobs = [(i, c) for i, c in enumerate(self.corpus(), start=10**9)] + [(i, None) for i in range(n)]
        dl = self.t0 + self.DEADLINE[self.tier]
        cut = False
        with multiprocessing.get_context("fork").Pool(self.WORKERS, _winit, (self, dirs)) as pool:
            it = pool.imap_unordered(_wrun, iter(jobs), self.CHUNK)
            for i, st, labels, dg, case, msg in it:
                cnt[st] += 1
                if st == "ok":
                    seen.add(dg)
                    for l in set(labels): labs[l] += 1
                    if self.nontrivial(labels): nt.add(dg)
                elif st == "skip": skips[labels[0]] += 1
                elif st == "bad":
                    bads.append((i, case, msg))
                    if not keep and len(bads) >= 1: break
                elif st == "err":
                    errs.append((i, case, msg))
                    if len(errs) > 3 and not keep: break
                if time.time() > dl: cut = True; break
            pool.terminate()
        for k in range(2):
            c = self.gencase(k)
            samples.append(self.sample(c))
        viol = 0
        rc = 0
        known = self.probes(ctx)
        for key, what in known:
            print("KNOWN-FINDING: property=%s %s: %s" % (self.ID, key, what))
        if bads:
            bads.sort(key=lambda b: b[0])
            shown = {}
            for i, case, msg in bads:
                shown.setdefault(msg[0].split(":")[0], []).append((i, case, msg))
            if keep:
                for k, v in shown.items(): print("BAD x%d  %s   cases %s" % (len(v), k, [x[0] for x in v][:8]))
            confirmed = False
            for i, case, msg in bads[:5]:
                # replay before believing it
                again = None
                try: self.run(ctx, case)
                except Bad as b: again = (b.msg, b.detail)
                except Exception: traceback.print_exc()
                if again is None:
                    sys.stderr.write("unconfirmed (did not reproduce): %s\n" % (msg,)); continue
                case, msg = self.shrink(ctx, case, again)
                os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
                path = os.path.join(VERIF, "replays", "%s-%s.json" % (self.ID, self.digest(case)))
                with open(path, "w") as f:
                    json.dump({"property": self.ID, "seed": self.seed, "index": i, "message": msg[0], "detail": str(msg[1]), "case": case, "readable": self.sample(case)}, f, indent=1, default=str)
                print("VIOLATION property=%s replay=%s" % (self.ID, path))
                print("  " + msg[0]);
                if msg[1]: print("  " + str(msg[1])[:3000].replace("\n", "\n  "))
                viol += 1; rc = 1; confirmed = True
                break
        if errs and not rc:
            # an exception that comes again is one that the output causes: what cannot be read is not right either
            for i, case, tb in sorted(errs, key=lambda e: e[0])[:3]:
                if case is None:
                    try: case = self.gencase(i)
                    except Exception: continue          # the generator's own, which has nothing to do with the code
                try: self.run(ctx, case); continue
                except (OSError, MemoryError, Skip): continue
                except Exception as e:
                    if isinstance(e, Bad): msg = (e.msg, e.detail)
                    else: msg = ("output that cannot be processed: %s" % (repr(e)[:200]), traceback.format_exc())
                os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
                path = os.path.join(VERIF, "replays", "%s-%s.json" % (self.ID, self.digest(case)))
                with open(path, "w") as f:
                    json.dump({"property": self.ID, "seed": self.seed, "index": i, "message": msg[0], "detail": str(msg[1]), "case": case, "readable": self.sample(case)}, f, indent=1, default=str)
                print("VIOLATION property=%s replay=%s" % (self.ID, path)); print("  " + msg[0]); print("  " + str(msg[1])[:3000].replace("\n", "\n  "))
                viol += 1; rc = 1
                break
        if errs and not rc:
            sys.stderr.write("harness errors: %d\n%s\n" % (len(errs), errs[0][2])); rc = 2
        cov = {"evaluations": cnt["ok"] + cnt["bad"], "distinct_nontrivial": len(nt), "rule": self.RULE, "samples": samples,
               "distinct": len(seen), "skipped": dict(skips), "classes": dict(labs.most_common(200)), "stopped_by_deadline": cut, "requested": n}
        self.evidence(cov, viol)
        print("%s %s seed=%d: %d cases, %d non-trivial, %d skipped, %d bad, %.1fs" % (self.ID, self.tier, self.seed, cnt["ok"], len(nt), sum(skips.values()), cnt["bad"], time.time() - self.t0))
        return rc
    def evidence(self, cov, viol):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {"property": self.ID, "tier": self.tier, "seed": self.seed, "level": self.LEVEL, "coverage": cov, "assumptions": self.ASSUME,
              "wall_s": round(time.time() - self.t0, 2), "violations": viol}
        p = os.path.join(VERIF, "evidence", self.ID + ".json")
        with open(p + ".tmp", "w") as f: json.dump(ev, f, indent=1, default=str)
        os.rename(p + ".tmp", p)

def main(cls):
    sys.exit(cls().main())
