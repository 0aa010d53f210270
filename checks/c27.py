import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from h import *
import crun, stmts, sqlite3, collections
from ortgen import fdict
LANGS = {"C": stmts.cname, "TypeScript": stmts.cname, "Rust": stmts.rname}
def wide(r, cfg):
    """Many structures with many references: hundreds of joined names."""
    S = cfg["structs"]
    def fld(n, t, **k): return dict({"name": n, "type": t, "ref": None, "enum": None, "bits": None, "src": None, "null": False, "unique": False, "rowid": False, "noexport": False, "default": None, "limits": [], "comment": None, "actdel": None, "actup": None}, **k)
    used = {x["name"] for k in ("enums", "bits", "structs") for x in cfg[k]}
    width = {}; names = []
    for i in range(r.choice([10, 30, 60, 80])):
        n = "w%d" % i
        if n in used: continue
        F = [fld("id", "int", rowid=True)]; joins = 0
        if i > 1:
            for j in range(r.choice([1, 4, 12, 20])):
                t = r.choice(names if r.random() < .3 else names[:2])
                if joins + 1 + width[t] > 40: continue
                nul = r.random() < .1
                joins += 0 if nul else 1 + width[t]
                F += [fld("k%d" % j, "int", ref=[t, "id"], null=nul), fld("s%d" % j, "struct", src="k%d" % j)]
            F.append(fld("v", r.choice(["int", "text"])))
        else: F.append(fld("v", "int"))
        width[n] = joins; names.append(n)
        s = {"name": n, "comment": None, "fields": F, "queries": [], "updates": [], "deletes": [], "uniques": [], "roles": [], "insert": True}
        q = {"type": r.choice(["list", "list", "iterate", "count", "search"]), "terms": [], "name": "q", "comment": None, "order": [], "limit": None, "offset": None, "group": None, "aggr": None, "distinct": None}
        P = [["id"], ["v"]] + [[f["name"], x] for f in F if f["type"] == "struct" and not fdict(s)[f["src"]]["null"] for x in ("id", "v")]
        if q["type"] == "search" or r.random() < .5: q["terms"] = [[r.choice(P), r.choice(["eq", "neq", "ge"])]]
        if q["type"] != "count" and r.random() < .4: q["order"] = [[r.choice(P), "asc"]]
        if q["type"] == "search": q["terms"] = [[["id"], "eq"]] + q["terms"]
        s["queries"].append(q); S.append(s)
def stretch(r, cfg):
    """Longer names, so that lines are broken elsewhere."""
    T = {}; N = {}; m = r.choice([12, 30, 66])
    def g(d, n):
        if n not in d: d[n] = n + ("" if r.random() < .3 else "q" + "".join(r.choice("abcdefgh") for _ in range(r.randint(1, m))))
        return d[n]
    def path(p): return p if p is None or p == ["."] else [g(N, x) for x in p]
    for s in cfg["structs"]:
        s["name"] = g(T, s["name"])
        for f in s["fields"]:
            f["name"] = g(N, f["name"])
            if f["ref"]: f["ref"] = [g(T, f["ref"][0]), g(N, f["ref"][1])]
            if f["src"]: f["src"] = g(N, f["src"])
        s["uniques"] = [[g(N, x) for x in u] for u in s["uniques"]]
        for q in s["queries"]:
            q["terms"] = [[path(p), o] for p, o in q["terms"]]; q["order"] = [[path(p), o] for p, o in q["order"]]
            q["group"] = path(q["group"]); q["distinct"] = path(q["distinct"])
            if q["aggr"]: q["aggr"] = [q["aggr"][0], path(q["aggr"][1])]
        for u in s["updates"] + s["deletes"]:
            if u.get("mods"): u["mods"] = [[g(N, n), m_] for n, m_ in u["mods"]]
            u["cons"] = [[g(N, n), o] for n, o in u["cons"]]
class C(Check):
    ID = "C27"
    N = {"quick": 5000, "thorough": 150000}
    SHRINK = 120
    RULE = ("a generated configuration (one in forty with hundreds of joined structures) and up to three histories; the SQL statements are read out of the C, TypeScript and Rust it generates, each must compile against the schema that ort-sql prints, take as many values as the operation and give as many columns as the "
            "structures hold, and the histories, carried out with them by an interpreter over SQLite, must return and store what the reference does; non-trivial: a history with a query that selects some but not all rows of its table")
    ASSUME = ["the statements stand where the generators put them today (an output of another form is counted as unread, not judged)", "binding and reading of values by the generated functions is C13-C16, C20 and C25"]
    def prof(self, r):
        k = r.random()
        if k < .32: d = dict(structs=(1, 4), queries=(0, 3), updates=(1, 4), deletes=(0, 2), exotic=.1)
        elif k < .9: d = dict(structs=(2, 5), queries=(2, 8), updates=(0, 2), deletes=(0, 1), refs=[0, 1, 1, 2], structref=.9, refnull=r.choice([.2, .2, .6]))
        elif k < .95: d = dict(structs=(1, 3), queries=(0, 2), updates=(0, 2), deletes=(0, 1), fields=(6, 24))
        else: d = dict(structs=(3, 6), queries=(1, 4), updates=(0, 1), deletes=(0, 0), refs=[1, 2, 3], fields=(1, 2), structref=1, refnull=.3, acyclic=.9)
        return ortgen.Prof(roles=0, comments=0, labels=0, deepbias=.5, order=.5, distinct=.2, null=.25, **d)
    def gen(self, r, i):
        w = r.random() < .025
        cfg = ortgen.gen(r, ortgen.Prof(structs=(1, 2), roles=0, comments=0, labels=0) if w else self.prof(r))
        if w: wide(r, cfg)
        elif r.random() < .15: stretch(r, cfg)
        for s in cfg["structs"]:
            if w or r.random() < .85: s["insert"] = True
            for q in s["queries"]: q["order"] = [o for o in q["order"] if crun.model.walk(cfg, s, o[0])[-1][1]["type"] != "password"]
        case = {"cfg": cfg, "hists": []}
        try: OPS = crun.ops(cfg)
        except Skip: return case
        W = r.choice([{}, {"insert": 3, "update": 1, "delete": .3, "search": 5, "list": 5, "iterate": 3, "count": 4}])
        for k in range(1 if w else r.choice([1, 2, 3])):
            hi = crun.history(r, cfg, OPS, None, 120 if w else r.choice([15, 30, 45]), W)
            if hi: case["hists"].append(hi)
        return case
    def run(self, ctx, case):
        cfg = case["cfg"]; OPS = crun.ops(cfg); f = ctx.cfg(cfg); labels = []
        if ctx.tool("ort", f).rc: raise Skip("refused")
        schema = ctx.ok("ort-sql", f).text
        try:
            db = sqlite3.connect(":memory:", isolation_level=None); db.executescript(schema)
        except sqlite3.Error as e: raise Bad("the schema is not valid", "%s\n%s" % (e, schema))
        all_ = {}
        for lang in LANGS:
            try:
                if lang == "C": x = stmts.from_c(ctx.ok("ort-c-source", "-S", ctx.dirs[self.FLAVOURS[0]], "-h", "db.h", f).text)
                elif lang == "TypeScript": x = stmts.from_ts(ctx.ok("ort-nodejs", f).text)
                else: x = stmts.from_rust(ctx.ok("ort-rust", f).text)
            except stmts.Unread as e: labels.append("unread " + lang); sys.stderr.write("%s: %s\n" % (lang, e)) if os.environ.get("VERBOSE") else None; continue
            all_[lang] = x
            self.static(cfg, db, lang, x, LANGS[lang])
        db.close()
        if not all_: raise Skip("unread")
        runs = {}
        for lang, x in all_.items():
            k = tuple((s, kind, key, " ".join(x[LANGS[lang](s, kind, key)].replace(", ", ",").split())) for s, kind, key, _ in stmts.catalogue(cfg))
            runs.setdefault(k, []).append(lang)
        if len(runs) > 1: labels.append("statements differ")
        if len(cfg["structs"]) > 9: labels.append("wide")
        order = crun.tableorder(schema)
        for k, ls in runs.items():
            exe = stmts.Interp(cfg, OPS, schema, all_[ls[0]], LANGS[ls[0]])
            for hi in case["hists"]:
                try: labels += crun.replay(ctx, exe, cfg, OPS, order, hi, dumps=len(cfg["structs"]) < 10)
                except Bad as e:
                    e.detail = "%s\n%s\n%s" % (", ".join(ls), e.detail, "\n".join(" ".join(map(str, y)) for y in k))
                    raise
            if not case["hists"]: labels.append("no history")
        return labels
    def static(self, cfg, db, lang, x, name):
        S = ortgen.sdict(cfg)
        for sn, kind, key, o in stmts.catalogue(cfg):
            n = name(sn, kind, key); s = S[sn]
            if n not in x: raise Bad("%s: no statement for an operation" % lang, "%s %s %s (%s)\n%s" % (sn, kind, key, n, "\n".join(sorted(x))))
        for n, q in x.items():
            np = q.count("?")       # no literals in statements
            try: c = db.execute("EXPLAIN " + q, [None] * np)
            except sqlite3.Error as e:
                if str(e).startswith("at most 64 tables"): raise Skip("64 tables")
                raise Bad("%s: a statement is not valid for the schema" % lang, "%s: %s\n%s" % (n, e, q))
            c.close()
        for sn, kind, key, o in stmts.catalogue(cfg):
            s = S[sn]; q = x[name(sn, kind, key)]; np = q.count("?"); w = None
            if kind == "unique": want = 1; w = stmts.width(cfg, s)
            elif kind == "search":
                op = crun.Op(o["type"], s, "", o, cfg)
                want = sum(1 for (_, f, _, k) in op.params if not (f["type"] == "password" and o["terms"][k[1]][1] in ("eq", "neq")))
                w = 1 if o["type"] == "count" else stmts.width(cfg, op.ret)
            else: want = len(crun.Op(kind, s, "", o, cfg).params)
            if np != want: raise Bad("%s: a statement takes %s values than the operation" % (lang, "fewer" if np < want else "more"), "%s %s %s: %d, not %d\n%s" % (sn, kind, key, np, want, q))
            if w is not None:
                c = db.execute(q, [None] * np); got = len(c.description); c.close()
                if got != w: raise Bad("%s: a statement gives %s columns than the structure holds" % (lang, "fewer" if got < w else "more"), "%s %s %s: %d, not %d\n%s" % (sn, kind, key, got, w, q))
    def reductions(self, case):
        H = case["hists"]
        if len(H) > 1:
            for x in H: yield dict(case, hists=[x])
        elif H:
            yield dict(case, hists=[])
            x = H[0]; n = len(x)
            for k in (n // 2, n // 4, 4, 2, 1):
                if k < 1: continue
                for i in range(0, n, k): yield dict(case, hists=[x[:i] + x[i + k:]])
        for c in ortgen.reductions(case["cfg"]): yield dict(case, cfg=c)
    def sample(self, case):
        d = dict(case); d["cfg"] = ortgen.pretty(case["cfg"]); d["hists"] = [[" ".join(x) for x in hi] for hi in case["hists"][:1]]
        return d
    def nontrivial(self, l): return "selective" in l
if __name__ == "__main__": main(C)
