import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from h import *
import sqlref, model, sqlite3
from ortgen import sdict, fdict
KW = """always current do exclude filter first following generated groups last materialized no nothing nulls others over partition
preceding range returning rows ties unbounded window rowid oid true false stored text integer real blob count date index of if
total sum abs key cast strict autoincrement pragma main temp master schema value values name type sql id old new excluded""".split()
class C(Check):
    ID = "C07"
    N = {"quick": 12000, "thorough": 200000}
    RULE = ("a generated configuration (references with all actions, unique fields and combinations, defaults, nulls, awkward comments) in a random presentation; its schema is loaded into SQLite, the catalogue compared with the model and a history of "
            "10-60 random inserts, updates and deletes on it compared, statement by statement and row by row, with the same history on an independently written schema; non-trivial: at least one statement was refused by a constraint and one accepted")
    ASSUME = ["SQLite 3.45 as the database engine"]
    def gen(self, r, i):
        p = ortgen.Prof(structs=(1, 5), queries=(0, 1), updates=(0, 1), deletes=(0, 1), null=.35, roles=.1, comments=.4, labels=.2, defaults=.4)
        if r.random() < .6: p.types = {"int": 6, "text": 3, "date": 1, "enum": 1}; p.reftypes = {"int": 8, "text": 3, "date": 1}; p.fields = (1, 4)
        cfg = ortgen.gen(r, p)
        # more actions
        for s in cfg["structs"]:
            for f in s["fields"]:
                if f["ref"] and f["type"] != "struct" and r.random() < .6:
                    if f["default"] is None and r.random() < .4: f["default"] = ortgen.mkdefault(r, p, cfg, f)
                    for a in ("actup", "actdel"):
                        c = r.choice(ortgen.ACTS)
                        if c == "nullify" and not f["null"]: c = "cascade"
                        if c == "default" and f["default"] is None and not f["null"]: c = "restrict"
                        f[a] = c
        if r.random() < .1:
            # words of SQL that are not reserved by ort(5)
            s = r.choice(cfg["structs"]); old = r.choice([s["name"]] + [f["name"] for f in s["fields"]])
            new = r.choice([w for w in KW if w not in ortgen.BADSET])
            t = json.dumps(cfg)
            if '"%s"' % new not in t: cfg = json.loads(t.replace('"%s"' % old, '"%s"' % new))
        return {"cfg": cfg, "seed": r.randint(0, 2**32), "n": r.choice([10, 30, 60])}
    def run(self, ctx, case):
        cfg = case["cfg"]; r = random.Random(case["seed"])
        f = ctx.cfg(cfg, "a.ort", ortgen.Style(r))
        if ctx.tool("ort", f).rc: raise Skip("refused")
        sql = ctx.ok("ort-sql", f).text
        c = sqlref.open_db(); c.execute("PRAGMA foreign_keys=OFF")
        try: c.executescript(sql)
        except sqlite3.Error as e: raise Bad("the schema does not load", "%s\n%s" % (e, sql))
        if c.execute("PRAGMA foreign_keys").fetchone()[0] != 1: raise Bad("foreign keys are not on after loading", sql)
        got, other = sqlref.catalogue(c); want = sqlref.expect(cfg)
        if other: raise Bad("unexpected objects in the schema", other)
        if set(got) != set(want): raise Bad("tables are not those of the model", "got %s\nwant %s" % (sorted(got), sorted(want)))
        for n in want:
            g, w = got[n], want[n]
            if g["cols"] != w["cols"]: raise Bad("columns are not those of the model", "%s:\n got %s\nwant %s" % (n, g["cols"], w["cols"]))
            if g["fk"] != w["fk"]: raise Bad("foreign keys are not those of the model", "%s:\n got %s\nwant %s" % (n, sorted(g["fk"]), sorted(w["fk"])))
            gu = [x[0] for x in g["uniq"] if x[2] != "pk"]
            if any(not x[1] or x[3] for x in g["uniq"]): raise Bad("an index is not unique or partial", g["uniq"])
            if set(gu) != w["uniq"]: raise Bad("unique indices are not those of the model", "%s:\n got %s\nwant %s" % (n, g["uniq"], w["uniq"]))
            if len(gu) != len(set(gu)): raise Bad("an index comes twice", g["uniq"])
        d = sqlref.open_db(); d.execute("PRAGMA foreign_keys=ON"); d.executescript(sqlref.ddl(cfg, list(got)))    # (the order of tables orders their actions)
        labels = self.history(r, cfg, c, d, case["n"])
        for s in cfg["structs"]:
            for x in s["fields"]:
                if x["ref"] and x["type"] != "struct":
                    for a in ("actup", "actdel"):
                        if x[a]: labels.append(a + " " + x[a])
        return labels
    def history(self, r, cfg, c, d, n, msg="schema behaves otherwise", full=False):
        labels = []; S = cfg["structs"]; names = [s["name"] for s in S]
        co = {s["name"]: [f["name"] for f in sqlref.cols(s)] for s in S}
        acc = ref = 0; log = []
        for _ in range(n):
            s = r.choice(S); C = sqlref.cols(s)
            if not C: continue
            F = {f["name"]: f for f in C}
            def val(f):
                if r.random() < (.25 if f["null"] else .04) or f["rowid"] and r.random() < .4: return None
                if f["ref"] and r.random() < .8:
                    rows = d.execute("SELECT %s FROM %s" % (f["ref"][1], f["ref"][0])).fetchall()
                    if rows: return r.choice(rows)[0]
                return sqlref.value(r, cfg, f)
            k = r.random()
            if k < .55:
                use = [f for f in C if full or r.random() < .95 or f["default"] is None and r.random() < .5]
                args = [val(f) for f in use]
                q = "INSERT INTO %s (%s) VALUES (%s)" % (s["name"], ", ".join(f["name"] for f in use), ", ".join("?" * len(use))) if use else "INSERT INTO %s DEFAULT VALUES" % s["name"]
            else:
                args = []
                if k < .8:
                    up = r.sample(C, min(len(C), r.randint(1, 2)))
                    q = "UPDATE %s SET %s" % (s["name"], ", ".join(f["name"] + " = ?" for f in up)); args = [val(f) for f in up]
                else: q = "DELETE FROM %s" % s["name"]
                if r.random() < .9:
                    w = r.choice(C); rows = d.execute("SELECT %s FROM %s" % (w["name"], s["name"])).fetchall()
                    q += " WHERE %s IS ?" % w["name"]; args.append(r.choice(rows)[0] if rows else None)
            res = []
            for db in (c, d):
                try: res.append(("ok", db.execute(q, args).rowcount))
                except sqlite3.Error as e: res.append(("no", type(e).__name__, str(e).split(":")[0]))
            log.append("%s %r -> %r" % (q, args, res))
            if res[0][0] != res[1][0] or (res[0][0] == "ok" and res[0] != res[1]): raise Bad(msg, "schema printed: %s\nreference: %s\n%s" % (res[0], res[1], "\n".join(log)))
            if res[0][0] == "ok": acc += 1
            else: ref += 1; labels.append(res[1][2])
            a, b = sqlref.dump(c, names, co), sqlref.dump(d, names, co)
            if a != b: raise Bad(msg, "rows differ\n%s\n\nprinted schema: %s\nreference: %s" % ("\n".join(log), a, b))
        if acc: labels.append("accepted")
        if ref: labels.append("refused")
        return labels
    def nontrivial(self, labels): return "accepted" in labels and "refused" in labels
    def reductions(self, case):
        if case["n"] > 5: yield dict(case, n=case["n"] // 2)
        yield from super().reductions(case)
if __name__ == "__main__": main(C)
