import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from h import *
import sqlref, model, edits, sqlite3, copy
from ortgen import sdict, fdict
from c07 import C as C07
def norm(a): return a or "none"
def refusals(A, B, destruct):
    """Why ort-sqldiff(1) has to refuse."""
    out = []
    def items(k, x): return ortgen.enumvals(x) if k == "enums" else {i["name"]: i["value"] for i in x["items"]}
    for k in ("enums", "bits"):
        nb = {x["name"]: x for x in B[k]}
        for x in A[k]:
            if x["name"] not in nb:
                if not destruct: out.append("dropped " + k)
                continue
            a, b = items(k, x), items(k, nb[x["name"]])
            for n in a:
                if n not in b:
                    if not destruct: out.append("dropped item of " + k)
                elif a[n] != b[n]: out.append("changed item of " + k)
    SB = sdict(B); SA = sdict(A)
    for s in A["structs"]:
        if s["name"] not in SB:
            if not destruct: out.append("dropped struct")
            continue
        FB = fdict(SB[s["name"]]); FA = fdict(s)
        for f in s["fields"]:
            g = FB.get(f["name"])
            if g is None:
                if f["type"] != "struct" and not destruct: out.append("dropped field")
                continue
            if f["type"] != g["type"] or f["enum"] != g["enum"] or f["bits"] != g["bits"]: out.append("changed type")
            if f["type"] == "struct" or g["type"] == "struct": continue
            if f["ref"] != g["ref"]: out.append("changed reference")
            if norm(f["actdel"]) != norm(g["actdel"]) or norm(f["actup"]) != norm(g["actup"]): out.append("changed action")
            if f["rowid"] != g["rowid"] or f["null"] != g["null"]: out.append("changed flags")
            if "default" in (g["actdel"], g["actup"]) and model.defval(A, f) != model.defval(B, g): out.append("changed default of action")
        for g in SB[s["name"]]["fields"]:
            if g["name"] not in FA and g["rowid"]: out.append("added rowid")
    return out
class C(C07):
    ID = "C08"
    N = {"quick": 15000, "thorough": 200000}
    RULE = ("a generated configuration, a second one made from it by 1-6 random edits (or made so that it can be migrated to), and random rows for the first; ort-sqldiff(1), with and without -d, must refuse exactly when the two models differ in a way that the manual "
            "lists, printing nothing; otherwise its output is run on the database with those rows, the catalogue compared with that of the new model, every surviving row and column value and the default of each new column compared, and a further random "
            "history run against a fresh database of the new model; a failing script must be explained by the rows (new NOT NULL column without default, new unique over duplicates); non-trivial: a script was produced and run on at least one row, or a refusal for a stated reason")
    def gen(self, r, i):
        p = ortgen.Prof(structs=(1, 4), queries=(0, 1), updates=(0, 1), deletes=(0, 1), null=.4, roles=.1, comments=.1, labels=.1, defaults=.5, enums=(0, 2), bits=(0, 1), fields=(1, 5))
        p.types = dict(p.types, real=4, enum=4)
        a = ortgen.gen(r, p)
        k = r.random()
        if k < .45: b = edits.edit(r, a, p, r.choice([1, 1, 2, 3, 6]))
        else: b = self.grow(r, a, p, k > .7)
        return {"cfg": a, "new": b, "seed": r.randint(0, 2**32), "rows": r.choice([0, 3, 10, 25]), "d": r.random() < .4}
    def grow(self, r, a, p, shrink):
        b = copy.deepcopy(a); S = sdict(b)
        if r.random() < .4:
            q = ortgen.Prof(**p.__dict__); q.structs = (1, 2); q.roles = 0
            c = ortgen.gen(r, q)
            top = edits.used_top(b)
            if not (edits.used_top(c) & top):
                for k in ("enums", "bits", "structs"): b[k] += c[k]
        for s in b["structs"]:
            if s["name"] not in sdict(a): continue
            for _ in range(r.choice([0, 1, 1, 2])):
                t = ortgen.wchoice(r, p.types)
                if t == "enum" and not b["enums"] or t == "bits" and not b["bits"]: t = "int"
                used = {x["name"] for x in s["fields"]}
                f = ortgen.mkfield(r, p, b, ortgen.ident(r, used, True), t)
                if r.random() < .5: f["default"] = ortgen.mkdefault(r, p, b, f)
                if r.random() < .15: f["unique"] = True
                if r.random() < .3:
                    T = [(x["name"], y["name"], y) for x in b["structs"] for y in x["fields"] if (y["rowid"] or y["unique"]) and y["type"] == t and t not in ("password",)]
                    if T:
                        x = r.choice(T); f["ref"] = [x[0], x[1]]; f["enum"] = x[2]["enum"]; f["bits"] = x[2]["bits"]; f["limits"] = []
                        if t in ("enum",): f["default"] = None
                        for act in ("actup", "actdel"):
                            if r.random() < .4:
                                ac = r.choice(ortgen.ACTS)
                                if ac == "nullify" and not f["null"]: ac = "cascade"
                                if ac == "default" and f["default"] is None and not f["null"]: ac = "none"
                                f[act] = ac
                s["fields"].insert(r.randint(0, len(s["fields"])), f)
            for f in s["fields"]:
                if r.random() < .06 and f["type"] != "struct" and not f["rowid"] and not f["unique"]: f["unique"] = True
                elif r.random() < .3 and f["unique"] and not any(x["ref"] == [s["name"], f["name"]] for t in b["structs"] for x in t["fields"]): f["unique"] = False
            if r.random() < .3 and s["uniques"]: s["uniques"].pop()
            if r.random() < .3: edits.e_misc(r, {"structs": [s]}, p)
            if shrink and len(s["fields"]) > 1 and r.random() < .6: s["fields"].pop(r.randrange(len(s["fields"])))
        if shrink and len(b["structs"]) > 1 and r.random() < .7: b["structs"].pop(r.randrange(len(b["structs"])))
        for e in b["enums"]:
            if r.random() < .3: e["items"].append({"name": ortgen.ident(r, {y["name"] for y in e["items"]}), "value": None, "comment": None, "labels": []})
        edits.clean(b)
        return b
    def run(self, ctx, case):
        A, B = case["cfg"], case["new"]; r = random.Random(case["seed"])
        fa = ctx.cfg(A, "a.ort", ortgen.Style(r)); fb = ctx.cfg(B, "b.ort", ortgen.Style(r))
        if ctx.tool("ort", fa).rc: raise Skip("old configuration refused")
        if ctx.tool("ort", fb).rc: raise Skip("edited configuration refused")
        args = ["-d"] if case["d"] else []
        if r.random() < .5: res = ctx.tool("ort-sqldiff", *args, fa, fb)
        elif r.random() < .5: res = ctx.tool("ort-sqldiff", *args, fa, "-f", fb)
        elif r.random() < .5: res = ctx.tool("ort-sqldiff", *args, fa, stdin=open(fb, "rb").read())
        else: res = ctx.tool("ort-sqldiff", *args, "-f", fb, stdin=open(fa, "rb").read())
        why = refusals(A, B, case["d"])
        if res.rc not in (0, 1): raise Bad("ort-sqldiff fails (%s)" % res.rc, res.errtext)
        if why:
            if res.rc == 0: raise Bad("an incompatible change is not refused", "%s\n%s" % (sorted(set(why)), res.text))
            if res.out: raise Bad("a refused change comes with a script", res.text)
            return ["refused: " + w for w in set(why)]
        if res.rc: raise Bad("a compatible change is refused", res.errtext)
        old = sqlref.open_db(); old.executescript(ctx.ok("ort-sql", fa).text)
        rows = self.populate(r, A, B, old, case["rows"])
        SA, SB = sdict(A), sdict(B)
        before = {}
        for n in SA:
            if n in SB:
                keep = [f["name"] for f in sqlref.cols(SA[n]) if f["name"] in fdict(SB[n]) and fdict(SB[n])[f["name"]]["type"] != "struct"]
                before[n] = (keep, old.execute("SELECT %s FROM %s" % (", ".join(keep), n)).fetchall() if keep else [], old.execute("SELECT COUNT(*) FROM " + n).fetchone()[0])
        script = res.text
        try: old.executescript(script)
        except sqlite3.Error as e:
            ex = self.explain(A, B, before, old)
            if ex: return ["script cannot run: " + ex]
            raise Bad("the script fails", "%s\n%s\n%s" % (e, script, before))
        labels = ["migrated"] if rows else ["migrated empty"]
        if script: labels.append("script")
        if old.execute("PRAGMA foreign_keys").fetchone()[0] != 1: raise Bad("foreign keys are off afterwards", script)
        # the schema
        got, other = sqlref.catalogue(old); want = sqlref.expect(B)
        if other: raise Bad("unexpected objects after the migration", other)
        if set(got) != set(want): raise Bad("tables after the migration are not those of the new model", "got %s\nwant %s\n%s" % (sorted(got), sorted(want), script))
        left = False
        for n in want:
            g, w = got[n], want[n]
            lc = set(g["cols"]) - set(w["cols"])
            fine = {f["name"] for f in sqlref.cols(SA[n])} if case["d"] and n in SA else set()
            if lc - fine: raise Bad("columns that are not of the new model", "%s: %s" % (n, lc))
            left |= bool(lc)
            if {k: v for k, v in g["cols"].items() if k not in lc} != w["cols"]: raise Bad("columns after the migration are not those of the new model", "%s:\n got %s\nwant %s\n%s" % (n, g["cols"], w["cols"], script))
            if {k for k in g["fk"] if k[0] not in lc} != w["fk"]: raise Bad("foreign keys after the migration are not those of the new model", "%s:\n got %s\nwant %s\n%s" % (n, sorted(g["fk"]), sorted(w["fk"]), script))
            gu = [x[0] for x in g["uniq"] if x[2] != "pk" and not x[0] & lc]
            if sorted(map(sorted, gu)) != sorted(map(sorted, w["uniq"])): raise Bad("unique indices after the migration are not those of the new model", "%s:\n got %s\nwant %s\n%s" % (n, sorted(map(sorted, gu)), sorted(map(sorted, w["uniq"])), script))
            if any(x[0] & lc for x in g["uniq"]): raise Bad("an index over a dropped column stays", "%s %s\n%s" % (n, g["uniq"], script))
        # the rows
        for n in SB:
            FB = fdict(SB[n])
            if n not in SA:
                if old.execute("SELECT COUNT(*) FROM " + n).fetchone()[0]: raise Bad("a new table has rows")
                continue
            keep, bef, cnt = before[n]
            new = [f for f in sqlref.cols(SB[n]) if f["name"] not in fdict(SA[n])]
            if old.execute("SELECT COUNT(*) FROM " + n).fetchone()[0] != cnt: raise Bad("rows were lost", "%s\n%s" % (n, script))
            if keep:
                aft = old.execute("SELECT %s FROM %s" % (", ".join(keep), n)).fetchall()
                if sorted(map(repr, aft)) != sorted(map(repr, bef)): raise Bad("stored values were changed", "%s\nbefore %s\nafter  %s\n%s" % (n, bef, aft, script))
            for f in new:
                d = model.defval(B, f)
                for (v,) in old.execute("SELECT %s FROM %s" % (f["name"], n)).fetchall():
                    if type(v) is not type(d) or v != d: raise Bad("a new column does not hold its default", "%s.%s: %r not %r\n%s" % (n, f["name"], v, d, script))
                    labels.append("default " + f["type"] if d is not None else "default null")
        if not left and old.execute("PRAGMA foreign_key_check").fetchall(): raise Bad("dangling references after the migration", script)
        parents = [f["ref"][0] for s in B["structs"] for f in sqlref.cols(s) if f["ref"]]
        # (several references to a table: what its rows' removal does depends on the order of columns)
        if not left and len(parents) == len(set(parents)):
            # behaves as a fresh database with the same rows; new columns carry a default that insertions naming all columns do not use
            fresh = sqlref.open_db(); fresh.executescript(ctx.ok("ort-sql", fb).text); fresh.execute("PRAGMA foreign_keys=OFF")
            for n in SB:
                cs = [f["name"] for f in sqlref.cols(SB[n])]
                if cs: fresh.executemany("INSERT INTO %s (%s) VALUES (%s)" % (n, ", ".join(cs), ", ".join("?" * len(cs))), old.execute("SELECT %s FROM %s" % (", ".join(cs), n)).fetchall())
            fresh.execute("PRAGMA foreign_keys=ON")
            labels += ["then " + l for l in self.history(r, B, old, fresh, 12, "the migrated database behaves otherwise than a new one", True) if l in ("accepted", "refused")]
        return labels
    def explain(self, A, B, before, db):
        SA, SB = sdict(A), sdict(B)
        for n in SB:
            if n not in SA: continue
            new = [f for f in sqlref.cols(SB[n]) if f["name"] not in fdict(SA[n])]
            cnt = before[n][2]
            for f in new:
                if cnt and not f["null"] and f["default"] is None: return "not null without default"
                if cnt and f["ref"] and f["default"] is not None: return "reference with default"
            names = {f["name"] for f in new}
            for u in sqlref.uniques(SB[n]) - sqlref.uniques(SA[n]):
                keep, bef, c = before[n]
                seen = set(); 
                for row in bef:
                    d = dict(zip(keep, row)); k = []
                    for x in sorted(u):
                        k.append(d[x] if x in d else model.defval(B, fdict(SB[n])[x]))
                    if None in k: continue
                    if repr(k) in seen or any(self.eq(k, y) for y in seen if isinstance(y, tuple)): return "new unique over duplicates"
                    seen.add(tuple(k))
                # rows of which no old column is kept
                if not keep and c > 1 and all(x in names for x in u) and all(model.defval(B, fdict(SB[n])[x]) is not None for x in u): return "new unique over duplicates"
        return None
    def eq(self, k, y): return list(y) == k
    def populate(self, r, A, B, db, n):
        cnt = 0; SB = sdict(B); SA = sdict(A)
        avoid = r.random() < .75
        for _ in range(n):
            s = r.choice(A["structs"]); C = sqlref.cols(s)
            if avoid and s["name"] in SB:
                new = [f for f in sqlref.cols(SB[s["name"]]) if f["name"] not in fdict(s)]
                if any(not f["null"] and f["default"] is None or f["ref"] and f["default"] is not None for f in new): continue
                nu = [u for u in sqlref.uniques(SB[s["name"]]) - sqlref.uniques(s)]
                if nu and db.execute("SELECT COUNT(*) FROM " + s["name"]).fetchone()[0]: continue
            a = []
            for f in C:
                if f["rowid"]: a.append(None if r.random() < .7 else r.randint(1, 9)); continue
                if f["null"] and r.random() < .3: a.append(None); continue
                v = sqlref.value(r, A, f)
                if f["ref"]:
                    rows = db.execute("SELECT %s FROM %s" % (f["ref"][1], f["ref"][0])).fetchall()
                    if rows: v = r.choice(rows)[0]
                    elif f["null"]: v = None
                a.append(v)
            try:
                db.execute("INSERT INTO %s (%s) VALUES (%s)" % (s["name"], ", ".join(f["name"] for f in C), ", ".join("?" * len(C))), a) if C else None
                cnt += 1
            except sqlite3.Error: pass
        return cnt
    def nontrivial(self, labels): return any(l.startswith("refused:") or l == "script" for l in labels) and "migrated empty" not in labels
    def reductions(self, case):
        A, B = case["cfg"], case["new"]
        if case["rows"] > 3: yield dict(case, rows=case["rows"] // 2)
        for k in ("structs", "enums", "bits"):
            for n in sorted({x["name"] for x in A[k]} | {x["name"] for x in B[k]}):
                d = copy.deepcopy(case)
                for w in ("cfg", "new"): d[w][k] = [x for x in d[w][k] if x["name"] != n]
                yield d
        for s in A["structs"]:
            for kk in ("queries", "updates", "deletes", "roles", "uniques", "fields"):
                for e in s[kk]:
                    d = copy.deepcopy(case)
                    for w in ("cfg", "new"):
                        for t in d[w]["structs"]:
                            if t["name"] == s["name"]: t[kk] = [z for z in t[kk] if z != e]
                    yield d
        for c in ortgen.reductions(A): yield dict(case, cfg=c)
        for c in ortgen.reductions(B): yield dict(case, new=c)
    def sample(self, case): return {"old": ortgen.pretty(case["cfg"]), "new": ortgen.pretty(case["new"]), "d": case["d"], "rows": case["rows"]}
if __name__ == "__main__": main(C)
