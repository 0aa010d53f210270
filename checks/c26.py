import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from h import *
import edits, mutate, re, collections
SINGLE = [["ort"], ["ort-sql"], ["ort-c-header", "-jJvs"], ["ort-c-source", "-S", "SHARE", "-jJv", "-hx.h"], ["ort-c-manpage", "-jJv"], ["ort-nodejs"], ["ort-nodejs", "-e", "-v"],
          ["ort-javascript", "-S", "SHARE"], ["ort-javascript", "-t", "-S", "SHARE"], ["ort-rust"], ["ort-json"], ["ort-audit"], ["ort-audit", "-v"], ["ort-audit", "-r", "ROLE"], ["ort-audit-json"], ["ort-audit-json", "-s", "-r", "ROLE"],
          ["ort-xliff"], ["ort-xliff", "-c"]]
PAIR = [["ort-diff"], ["ort-sqldiff"], ["ort-sqldiff", "-d"]]
JOIN = [["ort-xliff", "-j"], ["ort-xliff", "-u"], ["ort-xliff", "-c", "-j"], ["ort-xliff", "-c", "-u"]]
# kind: how many of them, at most, in one run
MAX = {"a": 70, "A": 15, "r": 12, "w": 40, "l": 25}
WHAT = {"a": "allocation %d fails", "A": "allocations fail from number %d on", "r": "read %d fails", "w": "print %d fails", "l": "only %d bytes of output fit"}
class C(Check):
    ID = "C26"
    FLAVOURS = ["fi", "plain"]
    N = {"quick": 700, "thorough": 40000}
    RULE = ("every case: one tool and a generated configuration (or two, or one and a translation; one in eight mutated), run as it is and then once for each of many injected faults: a single failing allocation or open, all from some point on, a failing read, a failing print, a limit on "
            "the size of the output (all of them when they are few, otherwise the first, the last, and a random choice that prefers one of each place in the code); a run must either end as the one without the fault did, with the same output, or end with failure (1, or 2 from ort-diff) and a diagnostic, without signal, sanitizer report or hang, "
            "and what is refused without a fault must be refused; directories given for files must be refused; non-trivial: the run without a fault succeeds with output and at least one fault was met")
    ASSUME = ["faults are injected at the C library's interface (malloc, stdio, read, asprintf and the like) as called from the repository's code; allocations within expat fail only as a whole parser", "leaks on the way to a failure are not judged"]
    SHRINK = 60
    def gen(self, r, i):
        p = ortgen.Prof(exotic=r.choice([0, .3]), structs=r.choice([(1, 1), (1, 3), (2, 4)]), roles=.5, labels=r.choice([0, .5, 1]))
        cfg = ortgen.gen(r, p); oth = None
        k = r.choice(["single"] * 6 + ["pair"] * 2 + ["join"] * 2 + ["multi"])
        tool = r.choice(PAIR if k == "pair" else JOIN if k == "join" else SINGLE)
        if k == "pair":
            if r.random() < .25: oth = ortgen.gen(r, p)
            else:
                oth = edits.edit(r, cfg, p, r.choice([1, 2, 6]))
                for _ in range(r.choice([0, 4, 12])): r.choice([edits.e_near, edits.e_near, edits.e_query, edits.e_update, edits.e_field, edits.e_enum])(r, oth, p)
                edits.clean(oth)
        if k == "join":
            for b in cfg["enums"] + cfg["bits"]:
                for it in b["items"]:
                    if r.random() < .8 and not any(x[0] == "" for x in it["labels"]): it["labels"].append(["", ortgen.literal(r, p, 1)])
        return {"cfg": cfg, "new": oth, "kind": k, "tool": tool, "seed": r.randint(0, 2**32), "mut": r.random() < .125, "role": r.choice(["default", "default"] + ortgen.allroles(cfg)), "dir": r.random() < .06}
    def run(self, ctx, case):
        k = case["kind"]; r = random.Random(case["seed"]); share = ctx.dirs["fi"]
        a = ortgen.render(case["cfg"]).encode()
        if case["mut"]: a = mutate.mutate(r, a, a)
        fs = [ctx.write("a.ort", a)]
        if k == "pair": fs.append(ctx.cfg(case["new"], "b.ort"))
        if k == "multi": fs.append(ctx.write("b.ort", "enum zzenum { item zza; };\n"))
        name, args = case["tool"][0], [share if x == "SHARE" else case["role"] if x == "ROLE" else x for x in case["tool"][1:]]
        if k == "join":
            x = ctx.tool("ort-xliff", fs[0], flavour="plain")
            if x.rc: raise Skip("refused")
            x = re.sub(rb"</source>", lambda _: b"</source><target>t%d</target>" % r.randint(0, 9), x.out)
            us = re.findall(rb"\s*<trans-unit.*?</trans-unit>", x, re.S)
            if us and r.random() < .4: x = x.replace(r.choice(us), b"", 1)
            if len(us) > 1 and r.random() < .4: x = x.replace(us[-1], b" " * r.choice([4096, 9000, 20000]) + us[-1], 1)   # more than one buffer
            fs.append(ctx.write("t.xliff", x))
        what = " ".join(case["tool"]); fail = 2 if name == "ort-diff" else 1; labels = []; text = a.decode("utf-8", "replace")[:3000]
        if case["dir"]:
            os.makedirs(os.path.join(ctx.scratch, "dir"), exist_ok=True)
            j = r.randrange(len(fs)); gs = fs[:j] + ["dir"] + fs[j + 1:]
            x = ctx.tool(name, *args, *gs, env=dict(ENV, ASAN_OPTIONS="detect_leaks=0:exitcode=99"))
            if x.rc != fail or not x.err.strip(): raise Bad("%s does not refuse a directory given for a file" % what, "status %s\n%s" % (x.rc, x.errtext[:1500]))
            return ["directory"]
        env = dict(ENV, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1")
        m = 1 if ctx.check.tier == "quick" else 6
        out = os.path.join(ctx.scratch, "faults"); tot = collections.Counter()
        for kind in "aArwl":
            if os.path.exists(out): os.unlink(out)
            x = ctx.tool(name, *args, *fs, env=dict(env, FI_SPEC="%s:%d:%d" % (kind, MAX[kind] * m, case["seed"]), FI_OUT=out), timeout=300)
            if x.rc != 0 or x.timeout: raise Exception("fault server: %s %s" % (x.rc, x.errtext[:1000]))
            ls = open(out).read().splitlines()
            _, st0, osz, esz, n = ls[0].split(); st0 = int(st0); osz = int(osz)
            if st0 & 127 or st0 >> 8 not in (0, 1, fail): raise Bad("%s dies (wait status %d)" % (what, st0), text)
            rc0 = st0 >> 8; good = rc0 == 0 or fail == 2 and rc0 == 1
            for l in ls[1:]:
                v = l.split(); kk = int(v[0]); st = int(v[1]); so = v[2] == "1"; se = v[3] == "1"; es = int(v[4]); hit = int(v[5])
                d = "%s\n%s (of %s)\n%s\n%s" % (what, WHAT[kind] % (kk - (kind == "l")), n, bytes.fromhex(v[6]).decode("utf-8", "replace") if len(v) > 6 else "", text)
                tot[kind] += 1
                if st & 127 == 14: raise Bad("%s does not end after a fault (%s)" % (what, kind), d)
                if st & 127: raise Bad("%s dies after a fault (%s)" % (what, kind), "signal %d\n" % (st & 127) + d)
                rc = st >> 8
                if rc in (97, 98, 99): raise Bad("%s: sanitizer report after a fault (%s)" % (what, kind), d)
                if rc == rc0 and (so or not good): continue
                if rc == rc0 and good and rc != fail or rc not in (fail, rc0): raise Bad("%s passes for success after a fault (%s)" % (what, kind) if rc in (0, 1) and rc != fail else "%s ends with an unknown status after a fault (%s)" % (what, kind), "status %d, not %d\n" % (rc, fail) + d)
                if good and kind != "A" and (es == 0 or se): raise Bad("%s fails without a diagnostic after a fault (%s)" % (what, kind), d)
            labels += ["%s, %s" % (name, {"a": "allocation", "A": "allocations", "r": "read", "w": "print", "l": "limit"}[kind])] if tot[kind] else []
        with open(os.path.join(ctx.check.root, "count"), "a") as f: f.write(json.dumps(tot) + "\n")
        labels.append("accepted" if good else "refused")
        if good and osz: labels.append("output")
        return labels
    def nontrivial(self, l): return "output" in l
    def evidence(self, cov, viol):
        t = collections.Counter()
        try:
            for l in open(os.path.join(self.root, "count")): t.update(json.loads(l))
        except OSError: pass
        cov["injected_faults"] = {WHAT[k].replace("%d", "n"): t[k] for k in "aArwl"}
        super().evidence(cov, viol)
    def reductions(self, case):
        for c in ortgen.reductions(case["cfg"]):
            d = dict(case, cfg=c)
            yield d
        if case["new"]:
            for c in ortgen.reductions(case["new"]): yield dict(case, new=c)
main(C)
