import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from h import *
import mutate, base64, lfuzz
SINGLE = [["ort"], ["ort-sql"], ["ort-c-header", "-jJvs"], ["ort-c-source", "-S", "SHARE", "-jJv", "-hx.h"], ["ort-c-manpage", "-jJv"], ["ort-nodejs"], ["ort-nodejs", "-e", "-v"],
          ["ort-javascript", "-S", "SHARE"], ["ort-javascript", "-t", "-S", "SHARE"], ["ort-rust"], ["ort-json"], ["ort-audit"], ["ort-audit", "-v"], ["ort-audit", "-r", "ROLE"], ["ort-audit-json"], ["ort-audit-json", "-r", "ROLE"],
          ["ort-xliff"], ["ort-sql", "-s"]]
PAIR = ["ort-diff", "ort-sqldiff", "ort-sqldiff -d"]
class C(Check):
    ID = "C02"
    FLAVOURS = ["asan", "plain"]
    N = {"quick": 2500, "thorough": 150000}
    RULE = ("every case: a generated configuration, token- and byte-mutated (or left as is), given to several tools built with AddressSanitizer, UBSan and LeakSanitizer; pairs for ort-diff and ort-sqldiff, mutated XLIFF for ort-xliff; "
            "a tool must end within 20 s with status 0 or 1 (or 2 from ort-diff) without a sanitizer report, and print a diagnostic when it fails; non-trivial: the text was mutated or is a pair. "
            "Besides, coverage-guided fuzzing (libFuzzer, address and undefined-behaviour sanitizers) of the library with configurations, pairs and translations, from the configurations of the repository and generated ones: counted under coverage_guided, not in the evaluations")
    ASSUME = ["failing allocations, reads and prints are C26, not injected here"]
    SHRINK = 400
    def setup(self, dirs): self.fuzzer = lfuzz.build()
    def corpus(self):
        """Failing inputs which coverage-guided fuzzing finds, as further cases."""
        q = self.tier == "quick"
        self.lf, bad = lfuzz.fuzz(self.root, self.dirs["plain"], self.seed, 20 if q else 3600, runs=15000 if q else None)
        return [{"kind": "lf", "a": b.decode("latin1"), "b": "", "tools": [], "seed": 0, "mut": True, "role": ""} for b in bad[:20]]
    def evidence(self, cov, viol):
        cov["coverage_guided"] = self.lf; super().evidence(cov, viol)
    def gen(self, r, i):
        p = ortgen.Prof(exotic=r.choice([0, .3, .9]), structs=(0, 4), roles=.6)
        cfg = ortgen.gen(r, p); oth = ortgen.gen(r, p)
        st = lambda: ortgen.Style(r) if r.random() < .3 else None
        a = ortgen.render(cfg, st()).encode(); b = ortgen.render(oth, st()).encode()
        kind = r.choice(["single"] * 6 + ["pair"] * 2 + ["xliff", "multi"])
        k = r.random()
        mut = k < .75
        if kind in ("single", "multi"):
            x = mutate.mutate(r, a, b) if mut else a
            y = b
        else:
            x = a
            y = mutate.mutate(r, a, b) if r.random() < .7 else b
            if r.random() < .3: x = mutate.mutate(r, a, b)
        tools = r.sample(range(len(SINGLE)), 4)
        return {"kind": kind, "a": x.decode("latin1"), "b": y.decode("latin1"), "tools": tools, "seed": r.randint(0, 2**32), "mut": mut,
                "role": r.choice(["default", "all", "none", "nosuchrole"] + ortgen.allroles(cfg))}
    def judge(self, name, r, data):
        if r.timeout: raise Bad("%s does not terminate" % name, data)
        if r.rc is not None and r.rc < 0 or r.rc in (97, 98, 99) or r.rc > 2: raise Bad("%s dies (status %s)" % (name, r.rc), r.errtext[-3500:] + "\n" + data)
        if r.rc != 0 and not r.err.strip() and not name.startswith("ort-diff"): raise Bad("%s fails without a diagnostic" % name, data)
        return r.rc
    def run(self, ctx, case):
        a = case["a"].encode("latin1"); b = case["b"].encode("latin1"); k = case["kind"]
        f = ctx.write("a.ort", a); share = ctx.dirs["asan"]
        l = []
        T = lambda name, *args, **kw: self.judge(" ".join([name] + [x for x in args if x.startswith("-")]), ctx.tool(name, *args, timeout=20, **kw), kw.get("data", a.decode("latin1"))[:3000])
        if k == "lf":
            rc, err = lfuzz.once(self.fuzzer, f)
            if rc is None: raise Bad("libFuzzer: no end", case["a"][:3000])
            if rc: raise Bad("libFuzzer: failure", err[:3500] + "\n" + case["a"][:3000])
            return ["libFuzzer"]
        if k == "single" or k == "multi":
            fs = [f]
            if k == "multi": fs.append(ctx.write("b.ort", b))
            for i in case["tools"]:
                t = SINGLE[i]
                args = [share if x == "SHARE" else case["role"] if x == "ROLE" else x for x in t[1:]]
                if t[0] in ("ort-audit", "ort-audit-json") and k == "multi": continue
                rc = T(t[0], *args, *fs)
                l.append("%s %d" % (t[0], rc))
        elif k == "pair":
            g = ctx.write("b.ort", b)
            for t in PAIR:
                t = t.split()
                rc = T(t[0], *t[1:], f, g)
                l.append("%s %d" % (" ".join(t), rc))
        else:
            x = ctx.tool("ort-xliff", f, timeout=20)
            self.judge("ort-xliff", x, case["a"][:3000])
            if x.rc == 0:
                r = random.Random(case["seed"])
                for m in range(3):
                    data = mutate.xmutate(r, x.out) if m else x.out
                    if r.random() < .7:
                        # give it targets
                        import re
                        data = re.sub(rb"</source>", lambda _: b"</source><target>t%d</target>" % r.randint(0, 9) if r.random() < .8 else b"</source>", data)
                    g = ctx.write("t%d.xliff" % m, data)
                    for fl in ("-j", "-u"):
                        self_r = ctx.tool("ort-xliff", fl, f, g, timeout=20)
                        rc = self.judge("ort-xliff " + fl, self_r, (a + b"\n" + data).decode("latin1")[:5000])
                        l.append("ort-xliff %s %d" % (fl, rc))
        if not case["mut"] and k == "single": return []
        return l
    def reductions(self, case):
        for k in ("a", "b"):
            t = mutate.toks(case[k].encode("latin1"))
            n = len(t)
            sz = n // 2
            while sz >= 1:
                for i in range(0, n, sz):
                    d = dict(case); d[k] = b"".join(t[:i] + t[i + sz:]).decode("latin1"); yield d
                sz //= 2
        for i in case["tools"]:
            if len(case["tools"]) > 1:
                d = dict(case); d["tools"] = [i]; yield d
    def sample(self, case):
        d = dict(case); d["a"] = d["a"][:1500]; d["b"] = d["b"][:1500]; return d
main(C)
