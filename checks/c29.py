import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from h import *
import model, edits, places, refparse, refdiff, re, copy, collections
from ortgen import sdict, fdict
from c07 import C as C07
FNAMES = ["a.ort", "b.ort", "deep/er/c.ort", "with space.ort", "a:1.ort", "\u00e9t\u00e9.ort", "q'uote.ort", "no-extension", "%s%n.ort"]
PARSER = re.compile("redundant|redunant|redeclaring|\"unset\" is")       # warnings while a file is read

class Text:
    """A configuration written out."""
    def __init__(self, files, names, mode, r, ctx):
        self.files = files; self.names = names; self.paths = []; self.toks = {}; self.lastline = {}; self.ctx = ctx
        for tops, nm in zip(files, names):
            flat = [t for _, ts in tops for t in ts]
            b, last = places.emit(flat, mode, r, nm)
            p = os.path.join(ctx.scratch, nm)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f: f.write(b)
            self.toks[nm] = flat; self.lastline[nm] = last + (0 if b[-1:] != b"\n" else 1) - (0)
            self.lastline[nm] = b.count(b"\n") + 1
    def ord(self, fname, line, col):
        """Which token of a text with a token per line."""
        for t in self.toks[fname]:
            if t.line == line:
                # a minus sign alone is found out at what follows it
                return t.n - 1 if col == 0 and t.n and self.toks[fname][t.n - 1].s == "-" else t.n
        if self.toks[fname] and self.toks[fname][-1].line < line <= self.lastline[fname]: return len(self.toks[fname])
        raise Bad("a position lies outside the file", "%s:%d:%d" % (fname, line, col))
    def at(self, fname, n, line, col):
        """Does the position fall on token n?"""
        ts = self.toks[fname]
        if n == len(ts): return (ts[-1].line if ts else 1) <= line <= self.lastline[fname]
        if ts[n].s == "-" and (line, col) == (ts[n].line + 1, 0): return True
        return places.near(ts[n], line, col)

def split(err, names):
    """Messages: (file, line, column, kind, text); text may start with a second position."""
    out = []
    for l in err.split("\n"):
        if not l: continue
        for nm in names:
            m = re.match(re.escape(nm) + r":(\d+):(\d+): (error|warning|fatal): (.*)$", l)
            if m: out.append((nm, int(m[1]), int(m[2]), m[3], m[4])); break
        else:
            if re.match(r"ort[a-z-]*: ", l): continue        # of the tool, not about a configuration
            m = re.match(r"(error|warning): (.*)$", l)
            if not m: raise Bad("a message is not of the form file:line:column: kind: text", l)
            out.append((None, 0, 0, m[1], m[2]))
    return out
def second(text, names):
    """Positions inside of a message's text."""
    for nm in names:
        m = re.search(r"(^|: )(" + re.escape(nm) + r"):(\d+):(\d+)(: |$)", text)
        if m: return text[:m.start(2)] + "@" + text[m.end(4):], (nm, int(m[3]), int(m[4]))
    return text, None

class C(Check):
    ID = "C29"
    N = {"quick": 15000, "thorough": 400000}
    RULE = ("a generated configuration written out token by token with random spaces, comments, line ends and files; three kinds: (accepted) the position of every object of ort-json(1) must be the file, line and column of that object's keyword or name or clause, and every position of "
            "ort-audit(1) and of every warning must name the same token as when the same tokens are written one per line; (mistakes) one token is damaged, dropped, doubled or exchanged, or one name that refers to another object misspelt: refused tools must say why, every message has the "
            "form file:line:column, names the same token in both layouts, the token where a reference parser stops for mistakes of syntax and the statement with the misspelt name for unknown references; (differences) ort-sqldiff(1) over random edits: the multiset of its refusals, "
            "each with the place in the old and new file, against a reference; non-trivial: at least ten positions compared, or a message about a mistake or difference")
    ASSUME = ["columns are accepted anywhere on the token, next to it, or as zero at the end of its line", "the order in which messages are printed is not compared"]
    def gen(self, r, i):
        k = r.choice(["ok", "bad", "bad", "ref", "dup", "diff"])
        if k == "diff":
            p = ortgen.Prof(structs=(1, 4), queries=(0, 1), updates=(0, 1), deletes=(0, 1), null=.4, roles=.1, comments=.1, labels=.1, defaults=.5, enums=(0, 3), bits=(0, 2), fields=(1, 5))
            p.types = dict(p.types, enum=4)
            a = ortgen.gen(r, p)
            return {"mode": k, "cfg": a, "new": edits.edit(r, a, p, r.choice([1, 2, 3, 6])), "d": r.random() < .3, "seed": r.randint(0, 2**32)}
        p = ortgen.Prof(structs=(1, 4), roles=.6, comments=.3, labels=.5, exotic=.3, anon=.3)
        return {"mode": k, "cfg": ortgen.gen(r, p), "seed": r.randint(0, 2**32), "files": r.choice([1, 1, 2, 3])}
    def texts(self, ctx, toks, names, r):
        """The same tokens in two layouts (in different directories, under the same names)."""
        import types
        out = []
        for mode, sub in (("lines", "x"), ("random", "y")):
            d = os.path.join(ctx.scratch, sub); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
            fs = [[(k, [places.Tok(t.s) for t in ts]) for k, ts in f] for f in toks]
            c = types.SimpleNamespace(scratch=d)
            out.append(Text(fs, names, mode, r, c))
        return out
    def tool2(self, ctx, T, *cmd):
        return ctx.tool(*cmd, cwd=T.ctx.scratch)
    def run(self, ctx, case):
        r = random.Random(case["seed"])
        return getattr(self, "m_" + case["mode"])(ctx, case, r)
    # ------------------------------------------------------------------ accepted
    def setupfiles(self, case, r):
        st = ortgen.Style(r)
        names = r.sample(FNAMES, case.get("files", 1))
        return places.mktoks(case["cfg"], st, len(names), r), names
    def m_ok(self, ctx, case, r):
        toks, names = self.setupfiles(case, r)
        # what is said twice is warned about
        for f in toks:
            for k, ts in f:
                if k.startswith("struct "):
                    for i in range(len(ts) - 1, 0, -1):
                        if ts[i].w in ("unique", "noexport") and ts[i - 1].s not in ("{", ";", "}", ".") and ts[i + 1].s not in (".", ",") and ts[i - 1].w not in ("field", "roles", "default") and r.random() < .6:
                            ts.insert(i, places.Tok(ts[i].s))
        L, R = self.texts(ctx, toks, names, r)
        a = self.tool2(ctx, L, "ort-json", *names); b = self.tool2(ctx, R, "ort-json", *names)
        if a.rc or b.rc: 
            if a.rc != b.rc: raise Bad("the layout decides whether a configuration is accepted", (a.errtext + b.errtext)[-1500:])
            raise Skip("refused")
        n = 0
        for T, o in ((R, b), (L, a)):
            J = json.loads(o.out)["config"]; S = sdict(case["cfg"])
            want = {}
            for f in T.files:
                for k, ts in f: want.update(places.objects(k, ts))
            def chk(key, pos):
                w = want.get(key)
                if w is None: raise Bad("ort-json has an object that is not written", str(key))
                if not places.inside(w, pos["fname"], pos["line"], pos["column"]):
                    raise Bad("ort-json position of %s is not that of the %s" % (key[-2] if isinstance(key[-1], int) else key[-1] if key[-1] in ("insert", "group", "aggr", "dst") else key[-2], "object"),
                              "%s: %s; written at %s" % (key, pos, [(t.s, t.file, t.line, t.c0, t.c1) for t in w]))
                want[key + ("seen",)] = 1
                nonlocal n; n += 1
            def labs(key, ls):
                for lang, l in ls.items(): chk(key + ("label", lang), l["pos"])
            for nm, x in (J["rq"] or {}).items():
                if nm not in ("none", "default", "all"): chk(("role", nm), x["pos"])
            for kk, k in (("eq", "enum"), ("bq", "bits")):
                for nm, x in J[kk].items():
                    chk((k, nm), x["pos"]); labs((k, nm, "isnull"), x["labelsNull"])
                    if k == "bits": labs((k, nm, "isunset"), x["labelsUnset"])
                    for it, y in x[kk].items():
                        chk((k, nm, "item", it), y["pos"]); labs((k, nm, "item", it), y["labels"])
            for nm, x in J["sq"].items():
                K = ("struct", nm); s = S[nm]
                chk(K, x["pos"])
                for fn, f in x["fq"].items(): chk(K + ("field", fn), f["pos"])
                if x["insert"]: chk(K + ("insert",), x["insert"]["pos"])
                for i, u in enumerate(x["nq"]): chk(K + ("unique", i), u["pos"])
                for kind, lst, js in (("update", s["updates"], x["uq"]), ("delete", s["deletes"], x["dq"]), ("query", s["queries"], x["sq"])):
                    anon = [i for i, q in enumerate(lst) if not q["name"]]
                    pairs = list(zip(anon, js["anon"])) + [(i, js["named"][q["name"]]) for i, q in enumerate(lst) if q["name"] and q["name"] in js["named"]]
                    if len(pairs) != len(lst): raise Bad("ort-json lacks an operation", "%s %s" % (nm, kind))
                    for i, y in pairs:
                        U = K + (kind, i)
                        chk(U, y["pos"])
                        if kind == "query":
                            for m, t in enumerate(y["sntq"]): chk(U + ("term", m), t["pos"])
                            for m, t in enumerate(y["ordq"]): chk(U + ("ord", m), t["pos"])
                            for g in ("aggr", "group", "dst"):
                                if y[g]: chk(U + (g,), y[g]["pos"])
                        else:
                            for m, t in enumerate(y["mrq"]): chk(U if "all" in y["flags"] else U + ("mod", m), t["pos"])
                            for m, t in enumerate(y["crq"]): chk(U + ("con", m), t["pos"])
        ms = self.same(L, R, a, b, names)
        early = [(names.index(f), o) for f, o, k, t in ms if PARSER.search(t)]
        if early != sorted(early) or [bool(PARSER.search(x[3])) for x in ms] != [True] * len(early) + [False] * (len(ms) - len(early)): raise Bad("messages are not in the order in which they arise", a.errtext[-1500:])
        fl = r.choice([[], ["-v"]]); role = r.choice(ortgen.allroles(case["cfg"]) or [None])
        args = fl + (["-r", role] if role else [])
        x = self.tool2(ctx, L, "ort-audit", *args, *names); y = self.tool2(ctx, R, "ort-audit", *args, *names)
        if x.rc != y.rc: raise Bad("ort-audit depends on the layout", (x.errtext + y.errtext)[-1000:])
        xl, yl = x.text.splitlines(), y.text.splitlines()
        if len(xl) != len(yl): raise Bad("ort-audit depends on the layout", x.text[:600] + y.text[:600])
        def ent(l):
            for nm in names:
                m = re.match(r"(.*\S) +" + re.escape(nm) + r":(\d+):(\d+)$", l)
                if m: return m[1].split(), nm, int(m[2]), int(m[3])
            raise Bad("a line of ort-audit has no position", l)
        for p, q in zip(map(ent, xl), map(ent, yl)):
            if p[0] != q[0]: raise Bad("ort-audit depends on the layout", str((p, q)))
            o = L.ord(*p[1:])
            if q[1] != p[1] or not R.at(q[1], o, q[2], q[3]): raise Bad("ort-audit does not name the same token in two layouts", "%s, token %d, but %s" % (p, o, q))
            self.audited(R, p[0], q); n += 1
        return ["accepted"] + (["objects"] if n >= 10 else []) + (["audited"] if xl else []) + (["warned"] if a.err else []) + (["ordered"] if len(early) > 1 else []) + ["files:%d" % len(names)]
    def audited(self, T, words, q):
        """The named operation is at this place."""
        k = words[0]
        if k not in ("insert", "update", "delete") + tuple(ortgen.QTYPES): return
        s, _, nm = words[1].partition(":") if len(words) > 1 else ("", "", "")
        for f in T.files:
            for kind, ts in f:
                if kind == "struct " + s:
                    hit = [st for st in places.stmts(places.body(ts)[1]) if st[0].w == k and places.inside(st, q[1], q[2], q[3])]
                    if not hit: raise Bad("ort-audit names a place that is not of the operation", "%s %s" % (words, q))
                    if nm and not nm.startswith("-") and k != "insert" and "name" in [t.w for t in hit[0]] and not any(t.w == nm for st in hit for t in st):
                        raise Bad("ort-audit names the place of another operation", "%s %s" % (words, q))
                    return
        raise Bad("ort-audit names no structure", str(words))
    # ------------------------------------------------------------------ messages of two layouts
    def same(self, L, R, a, b, names):
        ml, mr = split(a.errtext, names), split(b.errtext, names)
        if len(ml) != len(mr): raise Bad("the number of messages depends on the layout", (a.errtext + "--\n" + b.errtext)[-2000:])
        out = []
        for x, y in zip(ml, mr):
            tx, px = second(x[4], names); ty, py = second(y[4], names)
            if (x[0], x[3], tx) != (y[0], y[3], ty): raise Bad("the messages depend on the layout", "%s\n%s" % (x, y))
            for p, q in ((x[:3], y[:3]), (px, py)):
                if not p or p[0] is None: continue
                if p[0] != q[0]: raise Bad("a message names different files", "%s\n%s" % (x, y))
                o = L.ord(*p)
                if not R.at(q[0], o, q[1], q[2]): raise Bad("a message does not name the same token in two layouts", "%s\n%s\nwhere token %d of %d is at %s" % (x, y, o, len(R.toks[q[0]]), [(t.s, t.line, t.c0, t.c1) for t in R.toks[q[0]][o:o + 1]]))
                if p is not px: out.append((p[0], o, x[3], tx))
        return out
    # ------------------------------------------------------------------ one mistake
    def m_bad(self, ctx, case, r):
        toks, names = self.setupfiles(case, r)
        flat = [(i, j, m) for i, f in enumerate(toks) for j, (k, ts) in enumerate(f) for m in range(len(ts))]
        what = r.choice(["junk", "drop", "double", "swap", "swap", "name", "reserved", "punct", "number", "cut"])
        allt = [t.s for f in toks for _, ts in f for t in ts]
        pick = lambda ok: r.choice([x for x in flat if ok(toks[x[0]][x[1]][1][x[2]].s)] or flat)
        i, j, m = pick(lambda s: True)
        ts = toks[i][j][1]
        if what == "junk": ts[m] = places.Tok(r.choice(["@", "!", "$", "(", "^", "\u00e9", "-", "_x", "=", "[", "?"]))
        elif what == "drop": del ts[m]
        elif what == "double": ts.insert(m, places.Tok(ts[m].s))
        elif what == "swap": ts[m] = places.Tok(r.choice(allt))
        elif what == "name":
            i, j, m = pick(lambda s: s.isalnum()); ts = toks[i][j][1]
            ts[m] = places.Tok(r.choice([t for t in allt if t.isalnum()]))
        elif what == "reserved":
            i, j, m = pick(lambda s: s.isalnum()); ts = toks[i][j][1]
            ts[m] = places.Tok(r.choice(["select", "int", "INDEX", "format", "while", "none", "default", "all"]))
        elif what == "punct": ts[m] = places.Tok(r.choice("{};,.:"))
        elif what == "number":
            i, j, m = pick(lambda s: s[:1].isdigit() or s[:1] == "-"); ts = toks[i][j][1]
            ts[m] = places.Tok(r.choice(["9223372036854775808", "-1", "0", "64", "1.5", "99999999999999999999999", "9223372036854775807", "-9223372036854775808"]))
        else: del ts[m:]
        L, R = self.texts(ctx, toks, names, r)
        a = self.tool2(ctx, L, "ort-json", *names); b = self.tool2(ctx, R, "ort-json", *names)
        if a.timeout or b.timeout: raise Bad("ort-json did not terminate")
        if a.rc != b.rc: raise Bad("the layout decides whether a configuration is accepted", (a.errtext + "--\n" + b.errtext)[-2000:])
        msgs = self.same(L, R, a, b, names)
        if a.rc == 0:
            if any(x[2] != "warning" for x in msgs): raise Bad("a message of an accepted configuration is an error", a.errtext[-500:])
            return ["still accepted"] + (["warned"] if msgs else [])
        errs = [x for x in msgs if x[2] != "warning"]
        if not errs and not any(x[3] != "warning" for x in split(a.errtext, names)): raise Bad("refused without saying why", a.errtext[-500:])
        stop = self.stops(L, names)
        if stop:
            f, lo, hi = stop
            if [x[1] for x in errs] != sorted(x[1] for x in errs): raise Bad("messages are not in the order in which they arise", a.errtext[-1500:])
            for nm, o, k, t in errs:
                if nm != f or not lo <= o <= hi: raise Bad("the message about a mistake of syntax is elsewhere", "%s; the reference stops at tokens %d-%d of %s:\n%s" % (errs, lo, hi, f, " ".join(t.s for t in L.toks[f][max(0, lo - 8):hi + 4])))
        return ["bad:" + what, "syntax" if stop else "link"] + (["second position"] if "@" in "".join(x[3] for x in errs) else [])
    def stops(self, L, names):
        """Tokens around the first mistake of syntax: (file, first, last), or None."""
        cfg = None
        # the reference parser works on one text: the files in turn
        data = [open(os.path.join(L.ctx.scratch, nm), "rb").read() for nm in names]
        last = {}
        class P(refparse.P):
            def __init__(p, toks): super().__init__(toks); last["p"] = p
        old = refparse.P
        refparse.P = P
        try:
            cnt = [0]
            lexed = []
            oldlex = refparse.lex
            def lex(b):
                cnt[0] += 1
                try: t = oldlex(b)
                except refparse.Reject:
                    raise refparse.Unsure("lexical")
                return t
            refparse.lex = lex
            try: refparse.parse(*data)
            except refparse.Reject: 
                i = last["p"].i; n = len(last["p"].t)
                ts = L.toks[names[cnt[0] - 1]]; lo = min(max(0, i - 3), len(ts))
                for _ in (1, 2):        # the reference may notice a little later: in the next statement
                    while lo > 0 and ts[lo - 1].s not in (";", "{", "}"): lo -= 1
                    lo = max(0, lo - 1)
                return names[cnt[0] - 1], lo, i + 1
            except refparse.Unsure as e:
                if str(e) == "lexical": return self.lexical(L, names, cnt[0] - 1, oldlex, data)
                return None
            finally: refparse.lex = oldlex
        finally: refparse.P = old
        return None
    def lexical(self, L, names, k, lex, data):
        """The first token that is none; mistakes before it may come first."""
        ts = L.toks[names[k]]
        for t in ts:
            try: lex(t.s.encode())
            except refparse.Reject: break
            except refparse.Unsure: return None
        else: return None
        # what precedes it has to be the beginning of something right
        try: refparse.parse(*data[:k], b"\n".join(x.s.encode() for x in ts[:t.n]))
        except refparse.Reject as e:
            pass
        except refparse.Unsure: return None
        return names[k], 0, t.n + 1
    # ------------------------------------------------------------------ one statement given twice
    def m_dup(self, ctx, case, r):
        toks, names = self.setupfiles(case, r)
        i = r.choice([i for i, f in enumerate(toks) if f]); f = toks[i]
        j = r.randrange(len(f)); k, ts = f[j]
        copy = lambda l: [places.Tok(t.s) for t in l]
        if r.random() < .15 or len(places.body(ts)[1]) == 0:
            one, two = ts, copy(ts); w = k.split()[0]
            f.insert(r.randint(j + 1, len(f)), (k, two))
        else:
            hd, bd = places.body(ts); ss = places.stmts(bd)
            m = r.randrange(len(ss)); one = ss[m]; w = one[0].w
            if w in ("item", "isnull", "isunset") and r.random() < .3 and "jslabel" in [t.w for t in one]:
                x = [q for q, t in enumerate(one) if t.w == "jslabel"]; a = r.choice(x); e = a + (4 if one[a + 1].s == "." else 2)
                two = copy(one[a:e]); nw = one[:e] + two + one[e:]; w = "jslabel"
                ss[m] = nw; one = one[a:e]
            else:
                two = copy(one); ss.insert(r.randint(m + 1, len(ss)), two)
            f[j] = (k, hd + [places.Tok("{")] + [t for s in ss for t in s] + ts[-2:])
        wh = []
        for x in (one, two):
            ids = {id(t) for t in x}; y = []
            for ff, nm in zip(toks, names):
                o = 0
                for _, tt in ff:
                    for t in tt:
                        if id(t) in ids: y.append((nm, o))
                        o += 1
            wh.append(y)
        L, R = self.texts(ctx, toks, names, r)
        a = self.tool2(ctx, L, "ort-json", *names); b = self.tool2(ctx, R, "ort-json", *names)
        if a.rc != b.rc: raise Bad("the layout decides whether a configuration is accepted", (a.errtext + "--\n" + b.errtext)[-2000:])
        msgs = self.same(L, R, a, b, names)
        if a.rc == 0: return ["twice accepted:" + w]
        errs = [(f, o) for f, o, kk, t in msgs if kk != "warning"]
        if not errs: raise Bad("refused without saying where", a.errtext[-500:])
        for e in errs:
            if e not in wh[0] and e not in wh[1]: raise Bad("the message about what is given twice (%s) is elsewhere" % w, "%s; given at %s and %s: %s" % (msgs, wh[0][:3], wh[1][:3], " ".join(t.s for t in one)[:300]))
        for nm, l, c, kk, t in split(a.errtext, names):
            p = second(t, names)[1]
            if p and kk != "warning":
                me = (nm, L.ord(nm, l, c)); it = (p[0], L.ord(*p))
                if not (me in wh[0] and it in wh[1] or me in wh[1] and it in wh[0]): raise Bad("a message about what is given twice (%s) does not name the other" % w, "%s: %s, %s; given at %s and %s" % (t, me, it, wh[0][:3], wh[1][:3]))
        return ["twice:" + w, "objects"]
    # ------------------------------------------------------------------ one misspelt reference
    def m_ref(self, ctx, case, r):
        toks, names = self.setupfiles(case, r)
        cand = []
        for i, f in enumerate(toks):
            for j, (k, ts) in enumerate(f):
                if not k.startswith("struct "): continue
                for st in places.stmts(places.body(ts)[1]):
                    w = st[0].w
                    if w == "field":
                        if st[2].s == ":": cand += [(st[3], st, "target"), (st[5], st, "target")]
                        x = 6 if st[2].s == ":" else 2
                        if st[x].w in ("enum", "bits", "bitfield", "struct"): cand.append((st[x + 1], st, st[x].w))
                        if st[x].w == "enum":
                            for q, t in enumerate(st):
                                if q > x + 1 and t.w == "default" and st[q - 1].w not in ("actdel", "actup"): cand.append((st[q + 1], st, "default"))
                    elif w == "unique": cand += [(t, st, "unique") for t in st[1:-1] if t.s != ","]
                    elif w == "roles":
                        e = next(q for q, t in enumerate(st) if t.s == "{")
                        cand += [(t, st, "role") for t in st[1:e] if t.s != "," and t.w not in ("none", "default", "all")]
                        for op in places.stmts(st[e + 1:-2]):
                            if len(op) == 3 and op[0].w != "noexport": cand.append((op[1], op, "operation"))
                            elif len(op) == 3: cand.append((op[1], op, "noexport"))
                    else:
                        for key, x in places.objects(k, [places.Tok("struct"), places.Tok(k[7:]), places.Tok("{")] + st + [places.Tok("}"), places.Tok(";")]).items():
                            if len(key) < 5 and key[-1] not in ("group", "aggr", "dst"): continue
                            y = [t for t in x if t.s != "."]
                            if key[-1] in ("group", "aggr", "dst"): y = y[1:]
                            else: 
                                z = [x[0]]; q = 1
                                while q < len(x) and x[q].s == ".": z.append(x[q + 1]); q += 2
                                y = z
                            cand += [(t, x, key[-1] if isinstance(key[-1], str) else key[-2]) for t in y if t.s != "."]
        if not cand: raise Skip("nothing refers to anything")
        kinds = sorted({c[2] for c in cand}); kd = r.choice(kinds)
        tok, stm, kd = r.choice([c for c in cand if c[2] == kd])
        tok.s = "nosuch" + r.choice(["a", "Zz", "1"])
        mark = {id(t) for t in stm}
        where = []
        for f, nm in zip(toks, names):
            o = 0
            for k, ts in f:
                for t in ts:
                    if id(t) in mark: where.append((nm, o))
                    o += 1
        L, R = self.texts(ctx, toks, names, r)
        a = self.tool2(ctx, L, "ort-json", *names); b = self.tool2(ctx, R, "ort-json", *names)
        if a.rc == 0 or b.rc == 0: raise Bad("a reference to nothing is accepted: " + kd, " ".join(t.s for t in stm))
        msgs = self.same(L, R, a, b, names)
        errs = [(f, o) for f, o, k, t in msgs if k != "warning"]
        if not errs: raise Bad("refused without saying where", a.errtext[-500:])
        if kd in ("role",):
            # what the block contains belongs to it
            lo, hi = min(where), max(where); where = [(lo[0], x) for x in range(lo[1], hi[1] + 1)]
        # operations of roles are reported where their structure is named
        if kd in ("operation", "noexport"):
            for f, nm in zip(toks, names):
                o = 0
                for k, ts in f:
                    if any(id(t) in mark for t in ts): where += [(nm, o), (nm, o + 1)]
                    o += len(ts)
        hits = [e for e in errs if e in where]
        if not hits: raise Bad("no message is at the reference to nothing (%s)" % kd, "%s\nwritten at tokens %s: %s" % (msgs, where, " ".join(t.s for t in stm)))
        if len(hits) != len(errs) and kd not in ("target", "struct", "enum", "bits", "bitfield", "default"): raise Bad("a message about a reference to nothing (%s) is elsewhere" % kd, str(msgs) + str(where))
        return ["reference", "ref:" + kd, "objects"]
    # ------------------------------------------------------------------ differences
    def want(self, A, B, destruct):
        """[(text, old key, new key)]"""
        out = []
        def items(k, x): return ortgen.enumvals(x) if k == "enums" else {i["name"]: i["value"] for i in x["items"]}
        for k, top, name in (("enums", "enum", "enumeration"), ("bits", "bits", "bitfield")):
            nb = {x["name"]: x for x in B[k]}
            for x in A[k]:
                if x["name"] not in nb:
                    if not destruct: out.append(("deleted " + name, (top, x["name"]), None))
                    continue
                p, q = items(k, x), items(k, nb[x["name"]])
                for n in p:
                    key = (top, x["name"], "item", n)
                    if n not in q:
                        if not destruct: out.append(("deleted %s item" % name, key, None))
                    elif p[n] != q[n]: out.append(("item has changed value" if k == "enums" else "bitfield item has changed value", key, key))
        SB = sdict(B)
        for s in A["structs"]:
            if s["name"] not in SB:
                if not destruct: out.append(("deleted table", ("struct", s["name"]), None))
                continue
            t = SB[s["name"]]; FB = fdict(t); FA = fdict(s)
            for f in s["fields"]:
                g = FB.get(f["name"]); key = ("struct", s["name"], "field", f["name"])
                if g is None:
                    if f["type"] != "struct" and not destruct: out.append(("field column was dropped", key, None))
                    continue
                m = refdiff.mod_field(refdiff.sig_field(A, s, f), refdiff.sig_field(B, t, g))
                for x in m:
                    if x in ("type", "enum", "bitf"): out.append(("field type has changed", key, key))
                    elif x == "actions": out.append(("field action has changed", key, key))
                    elif x == "reference" or x == "ref":
                        if f["type"] != "struct" and g["type"] != "struct": out.append(("field reference has changed", key, key))
                    elif x == "def" and "default" in (g["actdel"], g["actup"]): out.append(("default of field action has changed", key, key))
                    elif x == "flags":
                        hd = "default" in (g["actdel"], g["actup"]) and (f["default"] is None) != (g["default"] is None)
                        if f["rowid"] != g["rowid"] or f["null"] != g["null"] or hd: out.append(("field flag has changed", key, key))
            for g in t["fields"]:
                if g["name"] not in FA and g["rowid"]: out.append(("row identifier was added", ("struct", s["name"], "field", g["name"]), None, "new"))
        return out
    def m_diff(self, ctx, case, r):
        A, B = case["cfg"], case["new"]
        st = ortgen.Style(r)
        names = ["old.ort", "new.ort"]
        ta, tb = places.mktoks(A, st, 1, r), places.mktoks(B, st, 1, r)
        L, R = self.texts(ctx, ta + tb, names, r)
        for T in (L, R):
            for nm in names:
                if self.tool2(ctx, T, "ort", nm).rc: raise Skip("refused")
        args = ["-d"] * case["d"] + names
        a = self.tool2(ctx, L, "ort-sqldiff", *args); b = self.tool2(ctx, R, "ort-sqldiff", *args)
        if a.rc != b.rc: raise Bad("ort-sqldiff depends on the layout", (a.errtext + b.errtext)[-1000:])
        self.same(L, R, a, b, names)
        if a.rc == 0 and b.out != a.out: raise Bad("ort-sqldiff depends on the layout", "")
        own = {}
        for nm in names:
            y = self.tool2(ctx, R, "ort", nm)
            for m in split(y.errtext, names): own[m] = own.get(m, 0) + 1
        objs = {nm: {} for nm in names}
        for nm, f in zip(names, R.files):
            for k, ts in f: objs[nm].update(places.objects(k, ts))
        want = self.want(A, B, case["d"])
        got = []
        for m in split(b.errtext, names):
            if own.get(m, 0): own[m] -= 1; continue
            got.append(m)
        left = list(want)
        for m in got:
            t, p2 = second(m[4], names)
            for w in left:
                nm = "new.ort" if len(w) > 3 else "old.ort"
                if w[0] != (t[3:] if p2 and t.startswith("@: ") else t) or m[0] != nm or (p2 is None) != (w[2] is None): continue
                if not places.inside(objs[nm][w[1]], nm, m[1], m[2]): continue
                if p2 and (p2[0] != "new.ort" or not places.inside(objs["new.ort"][w[2]], *p2)): continue
                left.remove(w); break
            else:
                same = [w for w in left if w[0] in m[4]]
                raise Bad("ort-sqldiff gives a reason that does not apply at its place", "%s; expected %s at %s" % (m, same or want, [(nm, [(t.s, t.line, t.c0, t.c1) for t in objs[nm].get(w[1], [])]) for w in same for nm in names]))
        if left: raise Bad("ort-sqldiff does not give a reason: " + left[0][0], "%s not among %s" % (left, got))
        if (a.rc != 0) != bool(want): raise Bad("ort-sqldiff refuses without a reason" if a.rc else "ort-sqldiff accepts despite a reason", str(want))
        return ["diff"] + (["reasons", "reason:" + want[0][0]] if want else [])
    def reductions(self, case):
        if case["mode"] != "diff":
            if case.get("files", 1) > 1: yield dict(case, files=1)
        yield from super().reductions(case)
    def nontrivial(self, labels): return "objects" in labels or "reasons" in labels or any(x.startswith("bad:") for x in labels)
main(C)
