import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from h import *
import glob, re, edits, mutate, refparse, wild
WORD = re.compile(rb"[A-Za-z]")
NUMS = [b"0", b"-1", b"1", b"2", b"63", b"64", b"-0", b"1.5", b"1.", b"-2.25", b"9223372036854775807", b"-9223372036854775807", b"9223372036854775808", b"9223372036854775806", b"-12", b"-13", b"-31", b"-32", b"2147483647", b"3"]
OPW = b"eq neq lt gt le ge like and or streq strneq isnull notnull set strset inc dec concat".split()
TYW = b"int text real blob date epoch email password bit struct enum bits".split()
INFO = [b"null", b"rowid", b"unique", b"noexport", b"limit ge 1", b"limit lt 1.5", b"default 1", b"default \"x\"", b"default 1.5", b"default 2000-01-31", b"default 2001-13-01", b"actdel nullify", b"actup default", b"actdel cascade", b"comment \"c\"", b"limit eq -1"]
STMT = [b"insert;", b"field zz int rowid;", b"field zz;", b"field zz text unique null;", b"unique a;", b"list;", b"search zz eq: limit 1;", b"count;", b"update;", b"delete zz;", b"comment \"c\";", b"roles default { all; };", b"roles all { insert; };", b"roles none { all; };",
        b"iterate: distinct .;", b"list: order zz;", b"list: limit 3, 4;", b"list: limit -3;", b"list: grouprow zz maxrow zz;", b"item zz 3;", b"item zz;", b"item zz -1;", b"role zz;", b"role zz { role yy; };", b"isnull jslabel \"n\";", b"isunset jslabel.en \"n\";"]
TOP = [b"roles { role zz; };", b"roles { };", b"enum zz { item a; };", b"bits zz { item a 3; };", b"struct zz { field a; };", b"struct zz { };", b"enum zz { };", b";", b"struct zz { field a int rowid; field b:zz.a; field c struct b; };"]
def stmts(t):
    """Ranges of statements: from after one of ;{ to the next semicolon."""
    out = []; st = 0
    for i, x in enumerate(t):
        if x == b";": out.append((st, i + 1)); st = i + 1
        elif x in (b"{", b"}"): st = i + 1
    return out
def mut(r, b, other):
    t = mutate.toks(b)
    for _ in range(r.choice([1, 1, 1, 1, 2, 2, 3])):
        if not t: return b""
        W = [i for i, x in enumerate(t) if WORD.match(x)]; N = [i for i, x in enumerate(t) if re.match(rb"-?\d", x)]
        P = [i for i, x in enumerate(t) if x in (b";", b",", b".", b":", b"{", b"}")]
        S = stmts(t); k = r.random()
        if k < .08 and W: t[r.choice(W)] = t[r.choice(W)]
        elif k < .14 and W: t[r.choice(W)] = r.choice(mutate.KW)
        elif k < .18 and W: t[r.choice(W)] = r.choice(ortgen.BAD).encode()
        elif k < .22 and N: t[r.choice(N)] = r.choice(NUMS)
        elif k < .27:
            o = [i for i in W if t[i].lower() in OPW]
            if o: t[r.choice(o)] = r.choice(OPW)
        elif k < .32:
            o = [i for i in W if t[i].lower() in TYW]
            if o: t[r.choice(o)] = r.choice(TYW)
        elif k < .37 and P: del t[r.choice(P)]
        elif k < .4 and P: i = r.choice(P); t.insert(i, r.choice([b";", b",", b".", b":", b"{", b"}"]))
        elif k < .5 and S: a, z = r.choice(S); del t[a:z]
        elif k < .57 and S: a, z = r.choice(S); t[z:z] = t[a:z]
        elif k < .62 and S: 
            a, z = r.choice(S); x = t[a:z]; c, d = r.choice(S); t[d:d] = x
        elif k < .7 and S: a, z = r.choice(S); t[z - 1:z - 1] = [b" ", r.choice(INFO), b" "]
        elif k < .77 and S: a, z = r.choice(S); t[z:z] = [b" ", r.choice(STMT), b" "]
        elif k < .8: t = t + [r.choice(TOP)] if r.random() < .5 else [r.choice(TOP)] + t
        elif k < .84: i = r.randrange(len(t)); del t[i]
        elif k < .88 and W: i = r.choice(W); t[i:i] = [t[i], b" "]
        elif k < .91: t = t[:r.randrange(len(t) + 1)]
        elif k < .93: t[r.randrange(len(t))] = r.choice(mutate.ODD)
        elif k < .96 and W:
            # a name gets another one of the same kind of place
            i = r.choice(W); n = t[i]; m = t[r.choice(W)]
            t = [m if x == n else x for x in t]
        else:
            L = [i for i, x in enumerate(t) if x[:1] == b'"']
            if L: t[r.choice(L)] = r.choice([b'""', b'"a"', b'"\\""', b'"a\r\nb"'])
    return b"".join(t)
OTHERS = ["ort-sql", "ort-json", "ort-c-header", "ort-nodejs", "ort-javascript", "ort-audit", "ort-rust", "ort-c-source"]
class C(Check):
    ID = "C01"
    N = {"quick": 25000, "thorough": 600000}
    RULE = ("a text of the configuration language: a generated configuration, one broken or changed by random edits of the model, or a generated or shipped text (regress/) with 1-3 grammar-aware token mutations, in one or several files; "
            "acceptance by ort(1) and another tool compared with an independent reader of ort(5) written in Python, refusals must give a message and no output, and what ort(1) prints for an accepted text must read back to the same model; "
            "non-trivial: judged and either refused for one of the catalogued reasons or accepted after a change")
    ASSUME = ["Texts on whose acceptance manual and tests leave room are not judged (counted as skipped)."]
    def setup(self, dirs):
        self.shipped = []
        for f in sorted(glob.glob("/repo/regress/*.ort") + glob.glob("/repo/regress/*.nresult") + glob.glob("/repo/examples/*.ort")):
            try: b = open(f, "rb").read()
            except OSError: continue
            if len(b) < 20000: self.shipped.append(b.decode("latin-1"))
    def corpus(self): return [{"files": [b], "kind": "shipped"} for b in self.shipped]
    def gen(self, r, i):
        k = r.random()
        prof = ortgen.Prof(exotic=r.choice([0, .3]), structs=(1, 3), roles=.5, comments=.2, queries=(0, 3), anon=.4)
        if r.random() < .25: prof.structref = .8; prof.null = .1; prof.structs = (2, 4)
        if k < .25 and self.shipped:
            b = r.choice(self.shipped).encode("latin-1")
            if "exotic" and r.random() < .15: b += b"\n" + ortgen.render(ortgen.gen(r, prof)).encode()
            kind = "shipped"; cfg = None
        else:
            cfg = ortgen.gen(r, prof); kind = "generated"
            if k < .5:
                # constructs drawn without regard to the rules
                for _ in range(r.choice([1, 1, 1, 2, 3])): r.choice(wild.WILD)(r, cfg, prof)
                kind = "wild"
            elif k < .65:
                # edits without tidying up afterwards
                for _ in range(r.choice([1, 2, 4])): r.choice(edits.EDITS)(r, cfg, prof)
                kind = "edited"
            b = None
        if b is None: b = ortgen.render(cfg, ortgen.Style(r) if r.random() < .3 else None).encode("utf-8", "surrogateescape")
        if kind == "shipped" or (kind == "generated" and r.random() < .85) or r.random() < (.06 if kind == "wild" else .3):
            b = mut(r, b, b); kind += "+mut"
        t = b.decode("latin-1")
        files = [t]
        if r.random() < .1:
            tk = mutate.toks(b); c = r.randrange(len(tk) + 1) if tk else 0
            ends = [j + 1 for j in range(len(tk) - 1) if tk[j] == b";" and b"".join(tk[:j]).rstrip().endswith(b"}")]
            if ends and r.random() < .8: c = r.choice(ends)
            files = [b"".join(tk[:c]).decode("latin-1"), b"".join(tk[c:]).decode("latin-1")]
        return {"files": files, "kind": kind, "seed": r.randint(0, 2**32)}
    def run(self, ctx, case):
        B = [f.encode("latin-1") for f in case["files"]]
        if any(b"\0" in b for b in B): raise Skip("NUL")
        try: ok, m = refparse.judge(*B)
        except refparse.Unsure as e: raise Skip("unsure: %s" % e)
        except RecursionError: raise Skip("deep")
        fs = [ctx.write("f%d.ort" % i, b) for i, b in enumerate(B)]
        r = ctx.tool("ort", *fs)
        if r.timeout: raise Bad("ort hangs")
        if r.rc not in (0, 1): raise Bad("ort ends abnormally (%s)" % r.rc, r.errtext[:500])
        if ok and r.rc: raise Bad("valid configuration refused", r.errtext[:500])
        if not ok and not r.rc: raise Bad("invalid configuration accepted", "rule: " + m)
        t = random.Random(case.get("seed", 0)).choice(OTHERS)
        args = ["-S", "/repo"] if t in ("ort-javascript", "ort-c-source") else []
        o = ctx.tool(t, *args, *fs)
        if not (t == "ort-audit" and ok and m["roles"] is None):     # "roles not enabled"
            if bool(o.rc) != bool(r.rc): raise Bad("acceptance differs between tools", "%s %s, ort %s\n%s" % (t, o.rc, r.rc, o.errtext[:300]))
        if not ok:
            if not r.err.strip(): raise Bad("refused without a message")
            if r.out: raise Bad("output in spite of a refusal", r.text[:300])
            if o.out: raise Bad("output in spite of a refusal", t + ": " + o.text[:300])
            return ["refused", "refused: " + m.split(" ")[0] + " " + " ".join(m.split(" ")[1:3])]
        try:
            m2 = refparse.parse(r.out); refparse.check(m2)
        except (refparse.Reject, refparse.Unsure) as e: raise Bad("ort prints an invalid configuration", "%s\n%s" % (e, r.text[:1000]))
        d = refparse.diff(refparse.norm(m), refparse.norm(m2))
        if d: raise Bad("ort prints another configuration", d)
        return ["accepted", "accepted " + case["kind"]]
    def nontrivial(self, labels): return "accepted generated" not in labels
    def reductions(self, case):
        for i in range(len(case["files"])):
            if len(case["files"]) > 1: yield dict(case, files=case["files"][:i] + case["files"][i + 1:])
        for i, f in enumerate(case["files"]):
            t = mutate.toks(f.encode("latin-1"))
            def put(x): return dict(case, files=case["files"][:i] + [b"".join(x).decode("latin-1")] + case["files"][i + 1:])
            # whole top-level objects, then statements, then tokens
            depth = 0; st = 0; objs = []
            for j, x in enumerate(t):
                if x == b"{": depth += 1
                elif x == b"}": depth -= 1
                elif x == b";" and depth <= 0: objs.append((st, j + 1)); st = j + 1
            for a, z in objs: yield put(t[:a] + t[z:])
            for a, z in stmts(t): yield put(t[:a] + t[z:])
            if len(t) < 400:
                for n in (8, 4, 2, 1):
                    for a in range(0, len(t), n): yield put(t[:a] + t[a + n:])
    def valid(self, ctx, case): return True
    SHRINK = 1500
    def sample(self, case): return case
main(C)
