"""Reference SQL semantics of a configuration model: catalogue, an independently written schema, random rows."""
import sqlite3, random
import ortgen, model
from ortgen import sdict, fdict

SQLT = {"bit": "INTEGER", "bits": "INTEGER", "date": "INTEGER", "epoch": "INTEGER", "int": "INTEGER", "enum": "INTEGER", "real": "REAL",
        "blob": "BLOB", "text": "TEXT", "password": "TEXT", "email": "TEXT"}
ACT = {None: "NO ACTION", "none": "NO ACTION", "restrict": "RESTRICT", "nullify": "SET NULL", "cascade": "CASCADE", "default": "SET DEFAULT"}

def cols(s): return [f for f in s["fields"] if f["type"] != "struct"]

def uniques(s):
    out = {frozenset([f["name"]]) for f in cols(s) if f["unique"]}
    return out | {frozenset(u) for u in s["uniques"]}

def open_db(path=":memory:"):
    c = sqlite3.connect(path, isolation_level=None)
    return c

def expect(cfg):
    """The catalogue that the model calls for."""
    out = {}
    for s in cfg["structs"]:
        t = {"cols": {}, "uniq": uniques(s), "fk": set()}
        for f in cols(s):
            t["cols"][f["name"]] = (SQLT[f["type"]], int(not f["null"] and not f["rowid"]), int(f["rowid"]))
            if f["ref"]: t["fk"].add((f["name"], f["ref"][0], f["ref"][1], ACT[f["actup"]], ACT[f["actdel"]]))
        out[s["name"]] = t
    return out

def catalogue(c):
    out = {}; other = []
    for typ, name, tbl in c.execute("SELECT type,name,tbl_name FROM sqlite_master").fetchall():
        if typ == "table": out[name] = {"cols": {}, "uniq": [], "fk": set()}
        elif typ != "index": other.append((typ, name))
    for n, t in out.items():
        for _, col, ty, nn, df, pk in c.execute("PRAGMA table_info(%s)" % n).fetchall(): t["cols"][col] = (ty, nn, int(pk))
        for _, iname, uq, origin, partial in c.execute("PRAGMA index_list(%s)" % n).fetchall():
            cs = frozenset(x[2] for x in c.execute("PRAGMA index_info('%s')" % iname).fetchall())
            t["uniq"].append((cs, uq, origin, partial, iname))
        for _, _, tbl, frm, to, up, de, match in c.execute("PRAGMA foreign_key_list(%s)" % n).fetchall(): t["fk"].add((frm, tbl, to, up, de))
    return out, other

def ddl(cfg, order=None):
    """Another way of writing the schema: one constraint clause per column and table."""
    out = []; S = sdict(cfg)
    for s in [S[n] for n in order or S]:
        parts = []
        for f in cols(s):
            d = "%s %s" % (f["name"], SQLT[f["type"]])
            if f["rowid"]: d += " PRIMARY KEY"
            elif not f["null"]: d += " NOT NULL"
            if f["default"] is not None and "default" in (f["actup"], f["actdel"]): d += " DEFAULT (%s)" % lit(model.defval(cfg, f))
            if f["ref"]: d += " REFERENCES %s(%s) ON UPDATE %s ON DELETE %s" % (f["ref"][0], f["ref"][1], ACT[f["actup"]], ACT[f["actdel"]])
            parts.append(d)
        for u in sorted(map(sorted, uniques(s))): parts.append("UNIQUE (%s)" % ", ".join(u))
        out.append("CREATE TABLE %s (%s);" % (s["name"], ", ".join(parts)))
    return "\n".join(out)

def lit(v):
    if isinstance(v, str): return "'%s'" % v.replace("'", "''")
    if isinstance(v, float): return repr(v)
    return str(v)

def value(r, cfg, f, small=True):
    """A value of the field's type, from a small pool so that rows meet."""
    t = f["type"]
    if t == "enum":
        e = model.edict(cfg)[f["enum"]]; return r.choice(list(ortgen.enumvals(e).values()))
    if t == "bits":
        return r.choice([0, 1, 2, 3, -2**63, 2**40 | 1])
    if t == "bit": return r.choice([0, 1, 1, 0, 5, 63])
    if t in ("int",): return r.choice([0, 1, 2, 3, 4, -1, 7, 2**62, -2**63]) if r.random() < .9 else r.randint(-2**63, 2**63 - 1)
    if t in ("date", "epoch"): return r.choice([0, 86400, 86400 * 365, -86400, 1600000000, 2**31])
    if t == "real": return r.choice([0.0, 1.0, 1.5, -2.25, 1e10, 3.0000000001, -1e-9])
    if t == "blob": return r.choice([b"", b"a", b"\x00\x01", b"\xff" * 3, b"ab"])
    return r.choice(["", "a", "b", "A", "ab", "it's", "1", "x\ny", "\u00e9", "%"])

def dump(c, tables, cols_of):
    out = {}
    for n in tables:
        q = "SELECT %s FROM %s" % (", ".join(cols_of[n]), n)
        out[n] = sorted((tuple((type(v).__name__, v) for v in row) for row in c.execute(q).fetchall()), key=repr)
    return out
