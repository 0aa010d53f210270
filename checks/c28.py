import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from h import *
import edits, mutate, re, copy, subprocess
SRC = os.path.join(VERIF, "lib", "hist", "hist.c")
NS = 4      # configurations alive at a time
# calls that only write: the tool that does the same, and the call
CF = {"j": 2, "J": 4, "v": 8, "s": 32}
def out_call(kind, r):
    """A random variant of an output: plain data, so that it can be replayed."""
    fl = "".join(x for x in "jJvs" if r.random() < .5)
    return {"kind": kind, "fl": fl, "N": r.choice(["", "", "d", "b", "bd"]), "g": r.choice([None, None, "", "ZZ_H"]), "h": r.choice([None, None, "", "x.h", "x.h , y.h"]), "I": "".join(x for x in "djv" if r.random() < .3),
            "e": r.random() < .5, "v": r.random() < .5, "ns": r.choice([None, None, None, "", "zz"]), "x": r.random() < .3, "role": r.random(), "c": r.random() < .5, "null": r.random() < .2}
OUT = ["write", "json", "frag", "sql", "rust", "node", "js", "chead", "csrc", "cman", "xext", "msgs"]
class C(Check):
    ID = "C28"
    FLAVOURS = ["asan", "plain"]
    N = {"quick": 6000, "thorough": 60000}
    RULE = ("a history of 15-70 calls of the library in one process: up to four configurations alive at a time are allocated, read from one or several files (some refused), closed, written in every output with random options, compared with each other and with themselves, audited, "
            "extracted, joined (in place) and updated with translations, and freed, all interleaved; every output, status and message is compared with those of the command-line tool in a process of its own for the same files and options (the JSON fragment and the namespace options with what the manual says of them); "
            "the process must end without sanitizer report or leak; non-trivial: at least six compared outputs from at least two configurations")
    ASSUME = ["a configuration is used as the manual pages order: files, close, outputs, free; after a refused file or close only its messages are read; differences and audits are freed before their configurations", "the tools in processes of their own are the reference: what they write is judged by the other properties"]
    SHRINK = 400
    def setup(self, dirs):
        d = dirs["asan"]; h = hashlib.sha256(open(SRC, "rb").read()).hexdigest()[:12]
        self.exe = os.path.join(d, "hist." + h)
        if not os.path.exists(self.exe):
            t = self.exe + ".%d" % os.getpid(); cc, fl = ortbuild.FLAVOURS["asan"]
            ortbuild.sh(cc + fl + ["-w", "-I", d, "-o", t, SRC, os.path.join(d, "liball.a"), "-lexpat"], d)
            os.rename(t, self.exe)
    def gen(self, r, i):
        p = ortgen.Prof(exotic=r.choice([0, .3]), structs=r.choice([(1, 2), (1, 3), (2, 4)]), roles=.6, labels=r.choice([0, .5, 1]), comments=.3)
        confs = []
        for k in range(r.randint(2, 4)):
            c = edits.edit(r, copy.deepcopy(confs[0]["cfg"]), p, r.choice([1, 2, 4])) if confs and r.random() < .4 else ortgen.gen(r, p)
            if r.random() < .4:
                for b in c["enums"] + c["bits"]:
                    for x in [b] if "lnull" in b else []: pass
                    for it in b["items"]:
                        if not any(x[0] == "" for x in it["labels"]) and r.random() < .9: it["labels"].append(["", ortgen.literal(r, p, 1)])
            confs.append({"cfg": c, "split": r.choice([1, 1, 2, 3]), "mut": r.randint(1, 2**32) if r.random() < .15 else None, "style": r.randint(1, 2**32) if r.random() < .2 else None})
        ops = [["new", s, r.randrange(len(confs))] for s in range(r.randint(1, NS))]
        for _ in range(r.randint(15, 70)):
            s = r.randrange(NS); k = r.random()
            if k < .06: ops.append(["new", s, r.randrange(len(confs))])
            elif k < .20: ops.append(["step", s])
            elif k < .22: ops.append(["all", s])
            elif k < .25: ops.append(["free", s])
            elif k < .33: ops.append(["diff", r.randrange(3), s, r.randrange(NS)])
            elif k < .43: ops.append([r.choice(["dwrite", "dwrite", "dsql", "dfree"]), r.randrange(3), r.randrange(2), int(r.random() < .3)])
            elif k < .48: ops.append(["audit", r.randrange(3), s, r.random()])
            elif k < .55: ops.append([r.choice(["awrite", "awrite", "afree"]), r.randrange(3), r.randrange(2)])
            elif k < .64: ops.append([r.choice(["join", "join", "upd"]), s, r.randint(0, 2**32), r.choice([0, 0, 1]), r.random() < .2, r.randint(1, 2)])
            else: ops.append(["out", s, out_call(r.choice(OUT), r)])
        return {"confs": confs, "ops": ops}
    def files(self, ctx, k, cf):
        r = random.Random(cf["style"] or 0)
        st = ortgen.Style(r) if cf["style"] else None
        parts = ortgen.toplevel(cf["cfg"], st) if False else None
        t = ortgen.render(cf["cfg"], st).encode("utf-8", "surrogateescape")
        if cf["mut"]: t = mutate.mutate(random.Random(cf["mut"]), t, t)
        t = re.sub(rb"-(?=0+(\.0*)?(?![\w.]))", b"", t)      # a written configuration does not keep the sign of zero
        # several files: cut between the top-level parts of a plain rendering
        cuts = [m.start() for m in re.finditer(rb"(?m)^(?=(enum|bits|struct|roles)\b)", t)][1:] if not st and not cf["mut"] else []
        n = min(cf["split"] - 1, len(cuts)); rr = random.Random(len(t)); cs = [0] + sorted(rr.sample(cuts, n)) + [len(t)]
        res = []
        for j in range(len(cs) - 1): nm = "c%d_%d.ort" % (k, j); ctx.write(nm, t[cs[j]:cs[j + 1]]); res.append(nm)
        return res
    def roles(self, cf, x):
        rs = ["default", "all", "none"] + ortgen.allroles(cf["cfg"])
        return rs[int(x * len(rs))]
    def run(self, ctx, case):
        share = ctx.dirs["plain"]; cache = {}; confs = case["confs"]; tag = [0]
        def tool(*a):
            if a not in cache: cache[a] = ctx.tool(*a, flavour="plain")
            return cache[a]
        F = [self.files(ctx, k, cf) for k, cf in enumerate(confs)]
        # the histories of other slots must not matter: state as the tools see it
        S = {}; D = {}; A = {}; script = []; exp = []
        def call(line, rc=None, out=None, msg=None, why=None):
            script.append("\t".join(map(str, line))); exp.append((rc, out, msg, why))
        def alone(s, line):
            """What the call answers in a process that has done nothing else."""
            l = tuple("\t".join(map(str, [x[0], 0] + list(x[2:]))) for x in [["alloc", 0]] + [["parse", 0, f] for f in S[s]["files"]] + [["close", 0]] + S[s]["pre"] + [line])
            if l not in cache:
                y = run([self.exe], "".join(z + "\n" for z in l), ctx.scratch, 300)
                a = self.answers(y.out)
                if y.rc or len(a) != len(l): raise Bad("the history ends badly", "status %s after %d of %d calls\n%s\n%s" % (y.rc, len(a), len(l), y.errtext[:3000], "\n".join(l)))
                cache[l] = a[-1]
            return cache[l]
        def closed(s): return s in S and S[s]["ph"] == "closed"
        def refs(s): return any(s in d["s"] for d in D.values()) or any(s == a["s"] for a in A.values())
        def step(s):
            st = S[s]; 
            if st["ph"] != "open": return
            acc = st["acc"]
            if st["next"] < len(st["files"]):
                call(["parse", s, st["files"][st["next"]]], 1 if acc else None); st["next"] += 1
            else:
                call(["close", s], 1 if acc else None); st["ph"] = "closed" if acc else "refused"
                if not acc: call(["msgs", s], 1, None, None, None); exp[-1] = (1, st["err"], None, "messages of a refused configuration")
        def drop(s):
            for k in [k for k, d in D.items() if s in d["s"]]: call(["dfree", k], 1); del D[k]
            for k in [k for k, a in A.items() if s == a["s"]]: call(["afree", k], 1); del A[k]
        nout = 0; used = set()
        for op in case["ops"]:
            o = op[0]; s = op[1]
            if o == "new":
                if s in S: drop(s); call(["free", s], 1)
                k = op[2]; x = tool("ort", *F[k])
                if x.rc not in (0, 1) or x.timeout: raise Skip("the tool dies: see C02")
                call(["alloc", s], 1); S[s] = {"k": k, "files": F[k], "next": 0, "ph": "open", "acc": x.rc == 0, "err": x.err, "joined": False, "taint": False, "x": tuple(F[k]), "pre": []}
                continue
            if o in ("step", "all", "free", "out", "join", "upd"):
                if s not in S: continue
                st = S[s]
                if o == "step": step(s)
                elif o == "all":
                    while st["ph"] == "open": step(s)
                elif o == "free": drop(s); call(["free", s], 1); del S[s]
                if o not in ("out", "join", "upd"): continue
                while st["ph"] == "open": step(s)
                if st["ph"] != "closed": continue
                fs = st["x"]; cmp = not st["taint"]; pos = cmp and not st["joined"]
                if o == "out":
                    c = op[2]; kd = c["kind"]; fl = c["fl"]; bits = sum(CF[x] for x in fl); x = None
                    T = lambda *a: tool(*a)
                    if kd == "msgs": call(["msgs", s], 1, st["err"], None, "messages"); used.add(st["k"]); continue
                    if kd == "write": line = ["write", s]; x = T("ort", *fs)
                    elif kd == "json": line = ["json", s, 0]; x = T("ort-json", *fs)
                    elif kd == "frag":
                        line = ["json", s, 1]; x = T("ort-json", *fs)
                        if x and not x.rc:
                            if not (x.out.startswith(b"{ ") and x.out.endswith(b" }}\n")): raise Bad("JSON is not an object around the fragment", x.out[:200])
                            x = Res(0, x.out[2:-4] + b"}\n", x.err)
                    elif kd == "sql": line = ["sql", s]; x = T("ort-sql", *fs)
                    elif kd == "rust": line = ["rust", s]; x = T("ort-rust", *fs)
                    elif kd == "node":
                        b = (0 if "b" in c["N"] else 2) | (0 if "d" in c["N"] else 4) | (8 if c["e"] else 0) | (1 if c["v"] else 0)
                        line = ["node", s, b]; x = T("ort-nodejs", *(["-e"] if c["e"] else []), *(["-v"] if c["v"] else []), *(["-N", c["N"]] if c["N"] else []), *fs)
                    elif kd == "js":
                        line = ["js", s, 1 if c["x"] else 0, "-" if c["ns"] is None else c["ns"], os.path.join(share, "ortPrivate.ts")]; x = T("ort-javascript", "-S", share, *fs)
                        if x and not x.rc and (c["ns"] or c["x"]):
                            if not x.out.startswith(b"namespace ort {"): raise Bad("the client does not begin with its namespace", x.out[:200])
                            x = Res(0, (b"export " if c["x"] else b"") + b"namespace " + (c["ns"] or "ort").encode() + x.out[len(b"namespace ort"):], x.err)
                    elif kd == "chead":
                        b = bits | (0 if "b" in c["N"] else 1) | (0 if "d" in c["N"] else 16)
                        line = ["chead", s, b, 0, "DB_H" if c["g"] is None else c["g"] or "-", "-", "-"]
                        x = T("ort-c-header", *(["-" + fl] if fl else []), *(["-N", c["N"]] if c["N"] else []), *(["-g", c["g"]] if c["g"] is not None else []), *fs)
                    elif kd == "csrc":
                        f2 = fl.replace("s", ""); b = sum(CF[y] for y in f2) | (0 if "d" in c["N"] else 16)
                        line = ["csrc", s, b, sum({"d": 16, "j": 2, "v": 8}[y] for y in c["I"]), "-", "db.h" if c["h"] is None else c["h"] or "-", os.path.join(share, "jsmn.c")]
                        x = T("ort-c-source", "-S", share, *(["-" + f2] if f2 else []), *(["-N", "d"] if "d" in c["N"] else []), *(["-I", c["I"]] if c["I"] else []), *(["-h", c["h"]] if c["h"] is not None else []), *fs)
                    elif kd == "cman":
                        f2 = fl.replace("s", ""); line = ["cman", s, sum(CF[y] for y in f2), 0, "-", "-", "-"]; x = T("ort-c-manpage", *(["-" + f2] if f2 else []), *fs)
                    elif kd == "xext":
                        line = ["xext", s, (1 if c["c"] else 0) | (0x100 if c["null"] else 0)]; x = T("ort-xliff", *(["-c"] if c["c"] else []), *fs)
                    why = ("" if pos else "=") + kd + " of " + " ".join(fs)
                    if x is not None and x.rc not in (0, 1): raise Skip("the tool dies: see C02")
                    if x is None or not cmp: call(line)
                    elif st["joined"]:
                        # not what is read back from its text: the order of structures may be another
                        a = alone(s, line); call(line, a[0], a[1], None, why[1:]); nout += 1; used.add(st["k"])
                    elif x.rc: call(line, "bad", None, None, why)
                    else: call(line, "good", x.out, None, why); nout += 1; used.add(st["k"])
                    continue
                # translations
                if o == "join" and refs(s): continue
                x = tool("ort-xliff", *fs)
                if x.rc: continue
                r = random.Random(op[2]); xs = []
                for j in range(op[5] if o == "join" else 1):
                    y = re.sub(rb"</source>", lambda _: b"</source><target>t%d</target>" % r.randint(0, 9), x.out)
                    y = y.replace(b"<file ", b'<file target-language="%s" ' % r.choice([b"fr", b"de", b"l%d" % j]), 1) if b"target-language" not in y else re.sub(rb'target-language="[^"]*"', b'target-language="%s"' % r.choice([b"fr", b"de", b"l%d" % j]), y, 1)
                    us = re.findall(rb"\s*<trans-unit.*?</trans-unit>", y, re.S)
                    if us and r.random() < .2: y = y.replace(r.choice(us), b"", 1)
                    if r.random() < .08: y = mutate.xmutate(r, y)
                    tag[0] += 1; nm = "x%d.xliff" % tag[0]; ctx.write(nm, y); xs.append(nm)
                line = ["xjoin" if o == "join" else "xupd", s, op[3] | (0x100 if op[4] else 0)] + xs
                y = tool("ort-xliff", "-j" if o == "join" else "-u", *(["-c"] if op[3] else []), *fs, "-x", *xs)
                if y.rc not in (0, 1): raise Skip("the tool dies: see C02")
                msg = None
                if pos and not op[4]: msg = st["err"] + b"\0" + y.err          # to be taken apart below
                if not cmp: call(line)
                elif y.rc: call(line, "bad", None, msg, o)
                else: call(line, "good", y.out, msg, ("" if pos else "=") + o); nout += 1
                if o == "join":
                    if y.rc or not cmp: st["taint"] = True
                    else:
                        tag[0] += 1; nm = "j%d.ort" % tag[0]; ctx.write(nm, y.out)
                        if tool("ort", nm).rc: st["taint"] = True
                        st["x"] = (nm,); st["joined"] = True; st["pre"].append(line)
                continue
            k = op[1]
            if o in ("diff", "audit"):
                if k in (D if o == "diff" else A): call([o[0] + "free", k], 1); del (D if o == "diff" else A)[k]
                ss = [op[2], op[3]] if o == "diff" else [op[2]]
                ok = True
                for s in ss:
                    if s not in S: ok = False; break
                    while S[s]["ph"] == "open": step(s)
                    ok = ok and S[s]["ph"] == "closed"
                if not ok: continue
                if o == "diff":
                    call(["diff", k, ss[0], ss[1]], 1)
                    D[k] = {"s": ss, "x": (S[ss[0]]["x"], S[ss[1]]["x"]), "err": S[ss[1]]["err"] + S[ss[0]]["err"], "cmp": not (S[ss[0]]["taint"] or S[ss[1]]["taint"]), "pos": not (S[ss[0]]["joined"] or S[ss[1]]["joined"])}
                else:
                    st = S[ss[0]]; role = self.roles(confs[st["k"]], op[3])
                    y = tool("ort-audit", "-r", role, *st["x"])
                    call(["audit", k, ss[0], role], 0 if y.rc else 1, None, None, "audit of " + role)
                    A[k] = {"s": ss[0], "x": st["x"], "role": role, "rc": y.rc, "cmp": not (st["taint"] or st["joined"])}
            elif o == "dfree" and k in D: call([o, k], 1); del D[k]
            elif o == "afree" and k in A: call([o, k], 1); del A[k]
            elif o == "dwrite" and k in D:
                d = D[k]; y = tool("ort-diff", *d["x"][0], "-f", *d["x"][1])
                line = [o, k, len(d["x"][0])] + list(d["x"][0]) + list(d["x"][1])
                if d["cmp"] and d["pos"]: call(line, 1, y.out, None, "ort-diff"); nout += 1
                else: call(line)
            elif o == "dsql" and k in D:
                d = D[k]; y = tool("ort-sqldiff", *(["-d"] if op[2] else []), *d["x"][0], "-f", *d["x"][1])
                if d["cmp"] and d["pos"]: call([o, k, op[2], op[3]], "bad" if y.rc else "good", y.out, d["err"] + b"\0" + y.err if d["pos"] and not op[3] else None, "ort-sqldiff"); nout += 1
                else: call([o, k, op[2]])
            elif o == "awrite" and k in A:
                a = A[k]; y = tool("ort-audit", *(["-v"] if op[2] else []), "-r", a["role"], *a["x"])
                if a["cmp"] and not a["rc"]: call([o, k, op[2]], 1, y.out, None, "ort-audit of " + a["role"]); nout += 1
                else: call([o, k, op[2]])
        x = run([self.exe], "".join(l + "\n" for l in script), ctx.scratch, 300)
        hist = "\n".join(script).replace(share, "SHARE")
        if x.timeout: raise Bad("the history does not end", hist)
        # take the answer apart
        res = self.answers(x.out)
        labels = set()
        for i, (rc, out, msg, why) in enumerate(exp):
            if i >= len(res): break
            g = res[i]; d = "call %d: %s\nafter:\n%s\n" % (i, script[i].replace(share, "SHARE"), "\n".join(script[:i]).replace(share, "SHARE"))
            if rc == "good" and g[0] <= 0 or rc == "bad" and g[0] > 0 or isinstance(rc, int) and g[0] != rc:
                raise Bad("%s: returns otherwise than on its own" % script[i].split("\t")[0], "returns %d\n" % g[0] + d)
            if out is not None:
                o2 = g[1]
                # (the positions of what a translation was joined to are its own)
                if why and why.startswith("="):
                    if script[i].startswith("json"): norm = self.nopos
                    elif script[i].startswith("js"): norm = lambda t: b"\n".join(bytes(sorted(l)) for l in t.split(b"\n"))      # the order of languages
                    else: norm = lambda t: re.sub(rb' original="[^"]*"', b"", t)
                elif script[i].startswith("awrite"): norm = lambda t: [re.sub(rb" +", b" ", l) for l in t.splitlines()]
                else: norm = lambda t: t
                if norm(o2) != norm(out):
                    raise Bad("%s: writes otherwise than on its own" % script[i].split("\t")[0], self.first(out, o2) + d)
                labels.add(script[i].split("\t")[0])
            if msg is not None:
                pre, err = msg.split(b"\0", 1)
                err = b"".join(l for l in err.splitlines(True) if not re.match(rb"ort-[a-z]+: ", l))
                if pre + g[2] != err: raise Bad("%s: messages otherwise than on its own" % script[i].split("\t")[0], self.first(err, pre + g[2]) + d)
        if x.rc or len(res) != len(script):
            raise Bad("the history ends badly" if x.rc not in (97,) else "the history leaks", "status %s after %d of %d calls\n%s\n%s" % (x.rc, len(res), len(script), x.errtext[:3000], hist))
        if nout >= 6 and len(used) > 1: labels.add("*")
        if any(not st["acc"] for st in S.values()): labels.add("refused")
        return sorted(labels)
    def answers(self, b):
        res = []; pos = 0
        while pos < len(b):
            e = b.index(b"\n", pos); _, num, rc, n, m = b[pos:e].split(); n = int(n); m = int(m); pos = e + 1
            res.append((int(rc), b[pos:pos + n], b[pos + n:pos + n + m])); pos += n + m
        return res
    def nopos(self, t):
        def strip(x):
            if isinstance(x, dict): return {k: strip(v) for k, v in x.items() if k != "pos"}
            return [strip(y) for y in x] if isinstance(x, list) else x
        try: v = json.loads(t)
        except ValueError:
            try: v = json.loads(b"{" + t + b"}")
            except ValueError: return t
        return json.dumps(strip(v), indent=0).encode()
    def first(self, a, b):
        A, B = a.split(b"\n"), b.split(b"\n")
        for i in range(max(len(A), len(B))):
            p = A[i] if i < len(A) else b"(end)"; q = B[i] if i < len(B) else b"(end)"
            if p != q: return "line %d\non its own: %r\nhere:       %r\n" % (i + 1, p[:300], q[:300])
        return ""
    def nontrivial(self, l): return "*" in l
    def reductions(self, case):
        ops = case["ops"]; n = len(ops)
        w = n // 2
        while w >= 1:
            for i in range(0, n, w): yield dict(case, ops=ops[:i] + ops[i + w:])
            w //= 2
        for k, cf in enumerate(case["confs"]):
            for f in ("mut", "style"):
                if cf[f]: yield dict(case, confs=case["confs"][:k] + [dict(cf, **{f: None})] + case["confs"][k + 1:])
            if cf["split"] > 1: yield dict(case, confs=case["confs"][:k] + [dict(cf, split=1)] + case["confs"][k + 1:])
        for k, cf in enumerate(case["confs"]):
            for c in ortgen.reductions(cf["cfg"]): yield dict(case, confs=case["confs"][:k] + [dict(cf, cfg=c)] + case["confs"][k + 1:])
    def sample(self, case):
        return {"configurations": [dict(cf, cfg=ortgen.pretty(cf["cfg"])) for cf in case["confs"]], "calls": case["ops"]}
main(C)
