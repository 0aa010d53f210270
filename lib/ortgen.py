"""Structured generator of ort(5) configurations.

A configuration is a plain JSON-able dict (the "model"), so that it can be
mutated, shrunk, saved in replay files and used as the reference model by every
check.  All randomness comes from the random.Random passed in.
"""
import copy, random

INT64_MAX = 2**63 - 1
BAD = ("auto break case char const continue default do double enum extern float goto long register short signed "
       "static struct typedef union unsigned void volatile ABORT ACTION ADD AFTER ALL ALTER ANALYZE AND AS ASC ATTACH "
       "AUTOINCREMENT BEFORE BEGIN BETWEEN BY CASCADE CASE CAST CHECK COLLATE COLUMN COMMIT CONFLICT CONSTRAINT CREATE "
       "CROSS DATABASE DEFAULT DEFERRABLE DEFERRED DELETE DESC DETACH DISTINCT DROP EACH ELSE END ESCAPE EXCEPT "
       "EXCLUSIVE EXISTS EXPLAIN FAIL FOR FOREIGN FROM FULL GLOB GROUP HAVING IF IGNORE IMMEDIATE IN INDEX INDEXED "
       "INITIALLY INNER INSERT INSTEAD INTERSECT INTO IS ISNULL JOIN KEY LEFT LIKE LIMIT MATCH NATURAL NOT NOTNULL NULL "
       "OF OFFSET ON OR ORDER OUTER PLAN PRAGMA PRIMARY QUERY RAISE RECURSIVE REFERENCES REGEXP REINDEX RELEASE RENAME "
       "REPLACE RESTRICT RIGHT ROLLBACK ROW SAVEPOINT SELECT SET TABLE TEMP TEMPORARY THEN TO TRANSACTION TRIGGER UNION "
       "NOTHING RETURNING inline int restrict return sizeof switch while UNIQUE UPDATE USING VACUUM VALUES VIEW VIRTUAL WHEN WHERE WITH WITHOUT").lower().split()
BADSET = set(BAD)
# Words which mean something to a C, TypeScript or Rust compiler or to SQLite
# but which ort(5) does not reserve: the generator stays away from them.
AVOID = BADSET | set(("int return sizeof switch while if else for inline restrict bool true false none all roles role "
    "field search list iterate count item comment class function new this type fn let match mod pub impl trait use self "
    "super crate ref mut loop move async await dyn yield var with try catch finally throw delete in of import export "
    "interface package private protected public arguments eval string number object any never symbol null undefined "
    "nothing do asm unix linux main errno stdin stdout stderr date abs floor exp log time index signal box final "
    "macro override priv typeof unsized abstract become rowid oid format where as over filter window generated always "
    "current groups range rows others ties exclude partition preceding following unbounded first last nulls materialized "
    "returning within id mtime name val data key").split())

TYPES = ["bit", "bits", "blob", "date", "real", "email", "enum", "epoch", "int", "password", "struct", "text"]
INTY = ("bit", "bits", "date", "epoch", "int")          # limits are integers
TEXTY = ("text", "email", "password", "blob")            # limits are lengths
NUMERIC = ("bit", "bits", "date", "enum", "epoch", "int", "real")
OPS = ["eq", "ge", "gt", "le", "lt", "neq", "like", "and", "or", "streq", "strneq", "isnull", "notnull"]
MODS = ["concat", "dec", "inc", "set", "strset"]
ACTS = ["none", "restrict", "nullify", "cascade", "default"]
LIMOPS = ["ge", "le", "gt", "lt", "eq"]
QTYPES = ["search", "list", "iterate", "count"]

class Prof:
    """Knobs of the generator."""
    def __init__(self, **kw):
        self.structs = (1, 5); self.fields = (1, 7); self.enums = (0, 3); self.bits = (0, 2)
        self.roles = 0.5            # probability of a roles block
        self.exotic = 0.3           # probability that a string is exotic
        self.comments = 0.3
        self.queries = (0, 5); self.updates = (0, 3); self.deletes = (0, 2)
        self.defaults = 0.25; self.limits = 0.3
        self.types = {"int": 6, "text": 5, "real": 2, "blob": 2, "date": 2, "epoch": 2, "email": 2, "password": 1.5,
                      "enum": 2, "bits": 2, "bit": 2}
        self.reftypes = {"int": 8, "text": 1, "email": 1, "date": 0.5, "real": 0.3, "bit": .3, "epoch": .5, "blob": .2}
        self.structref = 0.45       # add a struct field for a foreign key
        self.anon = 0.25            # probability of an unnamed operation
        self.rowid = 0.85
        self.null = 0.3
        self.bits_limits = False    # ort(5): limit not available for bits
        self.group = 0.15; self.distinct = 0.12; self.order = 0.35; self.limit = 0.3; self.offset = 0.4
        self.safe_strings = False
        self.countparams = True     # allow order/limit/distinct/group on count
        self.labels = 0.5
        self.maxdepth = 3
        self.int32enums = True
        self.refref = True
        self.refs = [0, 0, 1, 1, 2] # numbers of references of a structure
        self.refnull = None         # null references, if not as other fields
        self.deepbias = 0           # paths through sub-structures, where there are any
        self.acyclic = 0            # probability that a reference is to an earlier structure, and can have a sub-structure
        self.deeproles = 0          # probability that the role tree is a deep one
        self.pwneq = 0              # such a term being a negation
        self.pwbias = .25           # a term on a password, where there is one
        self.__dict__.update(kw)

SYL = "ba be bi bo bu ca ce co da de di do fa fe fo ga ge go ha he ho ka ke ko la le lo ma me mo na ne no pa pe po ra re ro sa se so ta te to va ve vo wa we wo xa xe ya yo za ze zo".split()

def ident(r, used=(), short=False):
    while True:
        n = "".join(r.choice(SYL) for _ in range(1 if short and r.random() < .3 else r.randint(1, 3)))
        if r.random() < .25: n += str(r.randint(0, 99))
        if r.random() < .1: n = n[0] + str(r.randint(0, 9)) + n[1:]
        if n not in AVOID and n not in used: return n

PLAIN = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 .,-_"
EXO = ["\\\"", "'", "<", ">", "&", "%", "\\", "\n", "\t", "é", "日本", "{", "}", ";", "#", "/", "*", "$", "`", "@", "&amp;", "&lt;", "\\n", "\\\\", "%s", "${x}", "''", "  ", "\U0001f600", "|", "~"]

def literal(r, p, minlen=0, maxlen=14):
    """Raw text between the quotes."""
    n = r.randint(minlen, maxlen)
    exo = (not p.safe_strings) and r.random() < p.exotic
    out = []
    for _ in range(n):
        if exo and r.random() < .4: out.append(r.choice(EXO))
        else: out.append(r.choice(PLAIN))
    s = "".join(out)
    return fixraw(s, minlen)

def fixraw(s, minlen=0):
    # every quote must follow a backslash, the text must not end in one,
    # and no CRLF
    o = ""
    for c in s:
        if c == '"' and not o.endswith("\\"): o += "\\"
        o += c
    while o.endswith("\\"): o = o[:-1]
    o = o.replace("\r", "")
    if len(o) < minlen: o += "x" * (minlen - len(o))
    return o

def rawval(s):
    """The string denoted by raw text."""
    return s.replace('\\"', '"') if s is not None else None

def wchoice(r, d):
    ks = sorted(d); tot = sum(d[k] for k in ks); x = r.random() * tot
    for k in ks:
        x -= d[k]
        if x < 0: return k
    return ks[-1]

def anint(r):
    k = r.random()
    if k < .5: return r.randint(-20, 100)
    if k < .7: return r.choice([0, 1, -1, 2**31 - 1, -2**31, 2**31, 2**32, 2**53, 2**53 + 1, -2**53 - 1])
    if k < .85: return r.randint(-2**40, 2**40)
    return r.choice([INT64_MAX, -INT64_MAX, INT64_MAX - 1, 2**62])

def adec(r):
    """A decimal in source form."""
    k = r.random()
    s = "-" if r.random() < .3 else ""
    if k < .5: return s + "%d.%s" % (r.randint(0, 99), r.choice(["", "0", "5", "25", "125", "1", "01"]))
    if k < .7: return s + "%d.%d" % (r.randint(0, 10**r.randint(1, 15)), r.randint(0, 10**r.randint(1, 9)))
    if k < .85: return s + "0.%0*d" % (r.randint(1, 12), r.randint(1, 99))
    return s + str(r.randint(0, 10**r.randint(1, 18)))

def labels(r, p, langs):
    d = {}
    if r.random() < p.labels:
        if r.random() < .7: d[""] = literal(r, p, 1)
        for l in langs:
            if r.random() < .4: d[l] = literal(r, p, 1)
    items = list(d.items()); r.shuffle(items)
    return [[a, b] for a, b in items]

def comment(r, p):
    return literal(r, p, 0, 40) if r.random() < p.comments else None

def gen(r, p=None):
    p = p or Prof()
    used = set()
    def nm():
        n = ident(r, used); used.add(n); return n
    langs = r.sample(["en", "fr", "de", "sv", "zz9"], r.randint(0, 3))
    cfg = {"roles": None, "enums": [], "bits": [], "structs": []}
    if r.random() < p.roles:
        rn = set(); deep = p.deeproles and r.random() < p.deeproles
        def roletree(depth):
            out = []
            for _ in range(r.randint(1, 2 if depth < 3 else 3) if deep else r.randint(0, 3 if depth < 2 else 1)):
                n = ident(r, rn); rn.add(n)
                out.append({"name": n, "comment": comment(r, p), "subs": roletree(depth + 1) if depth < 3 and r.random() < (.8 if deep else .5) else []})
            return out
        cfg["roles"] = roletree(0)
    for _ in range(r.randint(*p.enums)):
        e = {"name": nm(), "comment": comment(r, p), "items": [], "isnull": labels(r, p, langs)}
        un = set(["format"]); vals = set()
        for _ in range(r.randint(1, 6)):
            n = ident(r, un); un.add(n)
            v = None
            if r.random() < .6:
                for _ in range(20):
                    k = r.random()
                    v = r.randint(-5, 20) if k < .7 else r.choice([2**31 - 2, -2**31 + 1, 0, 1000, -1000, 2**30]) if p.int32enums else anint(r)
                    if v not in vals and abs(v) < INT64_MAX: break
                else: v = None
                if v is not None:
                    vals.add(v)
            e["items"].append({"name": n, "value": v, "comment": comment(r, p), "labels": labels(r, p, langs)})
        m = [i["value"] for i in e["items"] if i["value"] is not None]
        if m and max(m) + sum(i["value"] is None for i in e["items"]) > (2**31 - 20 if p.int32enums else INT64_MAX - 1):
            for i in e["items"]:
                if i["value"] is None:
                    # automatic values would reach the bounds
                    v = 0
                    while v in vals: v += 1
                    vals.add(v); i["value"] = v
        cfg["enums"].append(e)
    for _ in range(r.randint(*p.bits)):
        b = {"name": nm(), "comment": comment(r, p), "items": [], "isnull": labels(r, p, langs), "isunset": labels(r, p, langs)}
        un = set(); idx = r.sample(range(64), r.randint(1, 5))
        if r.random() < .3 and 63 not in idx: idx[0] = 63
        if r.random() < .3 and 0 not in idx: idx[-1] = 0
        for v in idx:
            n = ident(r, un); un.add(n)
            b["items"].append({"name": n, "value": v, "comment": comment(r, p), "labels": labels(r, p, langs)})
        cfg["bits"].append(b)
    names = [nm() for _ in range(r.randint(*p.structs))]
    order = names[:]; r.shuffle(order)      # dependency order of sub-structures
    # pass 1: rowids and unique candidates, so that references can go anywhere
    S = {}
    for n in names:
        s = {"name": n, "comment": comment(r, p), "fields": [], "insert": r.random() < .7, "queries": [], "updates": [],
             "deletes": [], "uniques": [], "roles": []}
        S[n] = s; cfg["structs"].append(s)
        fu = set()
        s["_u"] = fu
        def fnm(s=s, fu=fu):
            x = ident(r, fu, True); fu.add(x); return x
        s["_n"] = fnm
        if r.random() < p.rowid:
            s["fields"].append(mkfield(r, p, cfg, fnm() if r.random() < .5 or "id" in fu else (fu.add("id") or "id"), "int", rowid=True))
        for _ in range(r.randint(*p.fields)):
            t = wchoice(r, p.types)
            if t == "enum" and not cfg["enums"]: t = "int"
            if t == "bits" and not cfg["bits"]: t = "text"
            f = mkfield(r, p, cfg, fnm(), t)
            if t in p.reftypes and r.random() < .2 or (r.random() < .04): f["unique"] = True
            s["fields"].append(f)
    # pass 2: references
    targets = [(n, f) for n in names for f in S[n]["fields"] if (f["rowid"] or f["unique"]) and f["type"] in p.reftypes]
    depth = {}
    # struct sizes after expansion, to keep alias counts small
    span = {n: 1 for n in names}
    for n in order:
        s = S[n]
        for _ in range(r.choice(p.refs)):
            if not targets: break
            tt = targets
            if p.acyclic and r.random() < p.acyclic: tt = [x for x in targets if order.index(x[0]) < order.index(n)] or targets
            tn, tf = r.choice(tt)
            if r.random() > p.reftypes[tf["type"]] / 3.0: continue
            f = mkfield(r, p, cfg, s["_n"](), tf["type"], noconst=True)
            if tf["type"] == "enum": f["enum"] = tf["enum"]
            if tf["type"] == "bits": f["bits"] = tf["bits"]
            f["ref"] = [tn, tf["name"]]
            if p.refnull is not None: f["null"] = r.random() < p.refnull
            if r.random() < .15: f["unique"] = True
            for a in ("actup", "actdel"):
                if r.random() < .4:
                    c = r.choice(ACTS)
                    if c == "nullify" and not f["null"]: c = "cascade"
                    if c == "default" and not (f["null"] or f["default"] is not None): c = "restrict"
                    f[a] = c
            s["fields"].append(f)
            if f["unique"] and p.refref: targets.append((n, f))     # a reference may refer to a reference
            # embed?  only along the acyclic order
            if order.index(tn) < order.index(n) and r.random() < p.structref and span[n] + span[tn] <= 12 and depth.get(tn, 0) + 1 <= p.maxdepth:
                g = mkfield(r, p, cfg, s["_n"](), "struct"); g["src"] = f["name"]
                s["fields"].append(g)
                span[n] += span[tn]; depth[n] = max(depth.get(n, 0), depth.get(tn, 0) + 1)
        r.shuffle(s["fields"])
    for n in names:
        s = S[n]; del s["_u"]; del s["_n"]
        real = [f for f in s["fields"] if f["type"] != "struct"]
        if len(real) >= 2 and r.random() < .3:
            seen = []
            for _ in range(r.randint(1, 2)):
                u = r.sample([f["name"] for f in real], r.randint(2, min(3, len(real))))
                if sorted(u) in seen: continue
                seen.append(sorted(u)); s["uniques"].append(u)
        qn = set(); anon = set()
        for _ in range(r.randint(*p.queries)):
            q = mkquery(r, p, cfg, s, qn, anon)
            if q: s["queries"].append(q)
        un = set()
        for kind, rng in (("updates", p.updates), ("deletes", p.deletes)):
            un = set()
            for _ in range(r.randint(*rng)):
                u = mkupdate(r, p, s, kind == "updates", un, anon)
                if u: s[kind].append(u)
    if cfg["roles"] is not None:
        for s in cfg["structs"]: s["roles"] = mkroles(r, cfg, s)
    return cfg

def mkfield(r, p, cfg, name, t, rowid=False, noconst=False):
    f = {"name": name, "type": t, "ref": None, "src": None, "enum": None, "bits": None, "null": False, "unique": False,
         "rowid": rowid, "noexport": False, "default": None, "limits": [], "comment": comment(r, p), "actdel": None, "actup": None}
    if t == "enum": f["enum"] = r.choice(cfg["enums"])["name"] if cfg["enums"] else None
    if t == "bits": f["bits"] = r.choice(cfg["bits"])["name"] if cfg["bits"] else None
    if not rowid and t != "struct": f["null"] = r.random() < p.null
    if r.random() < .15: f["noexport"] = True
    if rowid or t == "struct": return f
    if r.random() < p.limits and not noconst: f["limits"] = mklimits(r, p, t)
    if r.random() < p.defaults: f["default"] = mkdefault(r, p, cfg, f)
    return f

def mklimits(r, p, t):
    out = []
    if t in ("enum", "struct") or (t == "bits" and not p.bits_limits): return out
    for _ in range(r.randint(1, 3)):
        op = r.choice(LIMOPS)
        if t == "real": v = adec(r)
        elif t in TEXTY: v = str(r.choice([0, 1, 2, 3, 5, 8, 64, 1000]))
        else: v = str(anint(r) if r.random() < .4 else r.randint(-3, 10))
        if not any(o == op and float(x) == float(v) for o, x in out): out.append([op, v])
    return out

def mkdefault(r, p, cfg, f):
    t = f["type"]
    if t in ("int", "epoch", "bit", "bits"): return ["int", str(anint(r) if t in ("int", "epoch") else r.randint(0, 64) if t == "bit" else r.randint(0, 2**32))]
    if t == "real": return ["real", adec(r)]
    if t == "date": return ["date", "%04d-%02d-%02d" % (r.choice([1970, 1900, 2020, 2038, 1999, 1969, 2400]), r.randint(1, 12), r.randint(1, 28))]
    if t in ("text", "email"): return ["str", literal(r, p)]
    if t == "enum":
        e = [e for e in cfg["enums"] if e["name"] == f["enum"]]
        if not e: return None
        return ["ident", r.choice(e[0]["items"])["name"]]
    return None

def sdict(cfg): return {s["name"]: s for s in cfg["structs"]}
def fdict(s): return {f["name"]: f for f in s["fields"]}

def reachable(cfg, s, kind="real", maxdepth=4):
    """All (path, field) reachable through non-null sub-structures."""
    S = sdict(cfg); out = []
    def walk(s, pre, d):
        F = fdict(s)
        for f in s["fields"]:
            if f["type"] == "struct":
                src = F.get(f["src"])
                if not src or not src["ref"] or src["null"] or src["ref"][0] not in S: continue
                if kind == "struct": out.append((pre + [f["name"]], f))
                if d < maxdepth: walk(S[src["ref"][0]], pre + [f["name"]], d + 1)
            elif kind == "real": out.append((pre + [f["name"]], f))
    walk(s, [], 0)
    return out

def okops(f, count=False, distinct=False):
    t = f["type"]
    if t == "password":
        o = ["isnull", "notnull", "streq", "strneq"]
        if not count and not distinct: o += ["eq", "neq"]
        return o
    o = ["eq", "ge", "gt", "le", "lt", "neq", "streq", "strneq", "isnull", "notnull"]
    if t in ("text", "email"): o.append("like")
    if t in ("bit", "bits", "int"): o += ["and", "or"]
    return o

def mkquery(r, p, cfg, s, qn, anon):
    qt = r.choice(QTYPES)
    q = {"type": qt, "terms": [], "name": None, "comment": comment(r, p), "order": [], "limit": None, "offset": None,
         "group": None, "aggr": None, "distinct": None}
    R = reachable(cfg, s)
    if not R: return None
    params = p.countparams or qt != "count"
    if params and r.random() < p.distinct:
        D = reachable(cfg, s, "struct")
        q["distinct"] = r.choice(D)[0] if D and r.random() < .7 else ["."]
    n = r.choice([0, 1, 1, 2, 3]) if qt != "search" else r.choice([1, 1, 2])
    deep = [x for x in R if len(x[0]) > 1] if p.deepbias else []
    if deep and r.random() < p.deepbias: R = R + deep * 4
    for _ in range(n):
        path, f = r.choice(R)
        if r.random() < p.pwbias:
            pw = [x for x in R if x[1]["type"] == "password"]
            if pw: path, f = r.choice(pw)
        ops = okops(f, qt == "count", q["distinct"] is not None)
        op = "eq" if "eq" in ops and r.random() < .45 else r.choice(ops)
        if p.pwneq and f["type"] == "password" and "neq" in ops and r.random() < p.pwneq: op = "neq"
        q["terms"].append([path, op])
    if params:
        if r.random() < p.order:
            for path, f in r.sample(R, min(len(R), r.randint(1, 3))):
                q["order"].append([path, r.choice(["asc", "desc", None])])
        if r.random() < p.limit or (qt == "search" and r.random() < .7):
            q["limit"] = 1 if qt == "search" and r.random() < .8 else r.choice([1, 2, 3, 5, 10])
            if r.random() < p.offset:
                q["offset"] = r.choice([0, 1, 2, 7])
                if r.random() < .2: q["limit"] = 0 # as many as there are
        if r.random() < p.group and q["distinct"] is None:
            C = [(pa, f) for pa, f in R if not f["null"] and f["type"] not in ("password", "struct")]
            r.shuffle(C)
            done = False
            for pa, f in C:
                for pb, g in C:
                    if pa != pb and pa[:-1] == pb[:-1]:
                        q["group"] = pa; q["aggr"] = [r.choice(["minrow", "maxrow"]), pb]; done = True; break
                if done: break
    sig = (qt, tuple(sorted((".".join(a), b) for a, b in q["terms"])))
    if r.random() < p.anon and sig not in anon:
        anon.add(sig)
    else:
        q["name"] = ident(r, qn); qn.add(q["name"])
    return q

def mkupdate(r, p, s, mod, names, anon):
    real = [f for f in s["fields"] if f["type"] != "struct"]
    u = {"mods": None, "cons": [], "name": None, "comment": comment(r, p)}
    if mod:
        cand = [f for f in real if not f["rowid"]]
        if not cand: return None
        if r.random() < .75:
            u["mods"] = []
            for f in r.sample(cand, min(len(cand), r.randint(1, 3))):
                ms = ["set", "strset", None]
                if f["type"] in NUMERIC: ms += ["inc", "dec"]
                if f["type"] in ("text", "email", "blob"): ms += ["concat"]
                u["mods"].append([f["name"], r.choice(ms)])
    for _ in range(r.choice([0, 1, 1, 1, 2])):
        f = r.choice(real)
        ops = okops(f)
        if f["type"] == "password": ops = ["streq", "strneq"]
        u["cons"].append([f["name"], r.choice(ops) if r.random() < .6 or "eq" not in ops else "eq"])
    sig = ("up" if mod else "del", repr(sorted(map(repr, u["mods"] or []))), repr(sorted(map(repr, u["cons"]))))
    if r.random() < p.anon and sig not in anon: anon.add(sig)
    else:
        u["name"] = ident(r, names); names.add(u["name"])
    return u

def allroles(cfg):
    out = []
    def w(rs):
        for x in rs: out.append(x["name"]); w(x["subs"])
    if cfg["roles"] is not None: w(cfg["roles"])
    return out

def mkroles(r, cfg, s):
    names = allroles(cfg) + ["default", "all"]
    out = []
    ops = [["all", None], ["noexport", None]]
    if s["insert"]: ops += [["insert", None]] * 2
    for q in s["queries"]:
        if q["name"]: ops.append([q["type"], q["name"]])
    for u in s["updates"]:
        if u["name"]: ops.append(["update", u["name"]])
    for u in s["deletes"]:
        if u["name"]: ops.append(["delete", u["name"]])
    for f in s["fields"]: ops.append(["noexport", f["name"]])
    taken = set()
    for _ in range(r.choice([0, 1, 2, 3])):
        rs = r.sample(names, min(len(names), r.choice([1, 1, 2, 3])))
        oo = []
        for _ in range(r.randint(1, 4)):
            o = r.choice(ops)
            # a role may be given an operation only once
            if any((x, o[0], o[1]) in taken for x in rs): continue
            for x in rs: taken.add((x, o[0], o[1]))
            oo.append(list(o))
        if oo: out.append({"roles": rs, "ops": oo})
    return out

# ------------------------------------------------------------------ rendering

class Style:
    """Random presentation; Style(None) is plain."""
    def __init__(self, r=None, case=True, comments=True, order=True, aliases=True):
        self.r = r; self.case = case; self.comments = comments; self.order = order; self.aliases = aliases
    def id(self, s):
        if self.r and self.case and self.r.random() < .3:
            return "".join(c.upper() if self.r.random() < .5 else c for c in s)
        return s
    kw = id
    def shuf(self, l):
        l = list(l)
        if self.r and self.order: self.r.shuffle(l)
        return l
    def merge(self, groups):
        """Interleave groups keeping the order inside each."""
        if not (self.r and self.order): return [x for g in groups for x in g]
        groups = [list(g) for g in groups if g]; out = []
        while groups:
            g = self.r.choice(groups); out.append(g.pop(0))
            groups = [g for g in groups if g]
        return out
    def sp(self, toks):
        """Tokens to text."""
        if not self.r: return " ".join(toks)
        out = []; prev = ""
        for t in toks:
            need = prev and prev[-1].isalnum() and t[:1].isalnum() or (prev and prev[-1] in "0123456789." and t[:1] in "0123456789.") or t[:1] == "-"
            k = self.r.random()
            if k < .1: ws = self.r.choice(["\n", "\t", "  ", " \n ", "\r\n"])
            elif k < .13 and self.comments: ws = self.r.choice([" # note \"x\n", "\n#\n", "# ; } {\n", "#é\n"])
            elif k < .75 or need: ws = " "
            else: ws = ""
            out.append(ws); out.append(t); prev = t
        return "".join(out)

def q(s): return '"' + s + '"'

def rlabels(st, ls):
    o = []
    for lang, txt in ls:
        o += [st.kw("jslabel")]
        if lang: o += [".", st.id(lang)]
        o += [q(txt)]
    return o

def rpath(st, path):
    o = []
    for i, x in enumerate(path):
        if i: o.append(".")
        o.append(st.id(x) if x != "." else ".")
    return o

def rcomment(st, c): return [] if c is None else [st.kw("comment"), q(c)]

def t_enum(st, e):
    o = [st.kw("enum"), st.id(e["name"]), "{"]
    items = []
    for i in e["items"]:
        a = [st.kw("item"), st.id(i["name"])]
        if i["value"] is not None: a.append(str(i["value"]))
        for x in st.shuf([rlabels(st, i["labels"]), rcomment(st, i["comment"])]): a += x
        items.append(a + [";"])
    g = [items]
    if e["comment"] is not None: g.append([rcomment(st, e["comment"]) + [";"]])
    if e["isnull"]: g.append([[st.kw("isnull")] + rlabels(st, e["isnull"]) + [";"]])
    for x in st.merge(g): o += x
    return o + ["}", ";"]

def t_bits(st, b):
    o = [st.kw(st.r.choice(["bits", "bitfield"]) if st.r and st.aliases else "bits"), st.id(b["name"]), "{"]
    items = []
    for i in b["items"]:
        a = [st.kw("item"), st.id(i["name"]), str(i["value"])]
        for x in st.shuf([rlabels(st, i["labels"]), rcomment(st, i["comment"])]): a += x
        items.append(a + [";"])
    g = [items]
    if b["comment"] is not None: g.append([rcomment(st, b["comment"]) + [";"]])
    if b["isnull"]: g.append([[st.kw("isnull")] + rlabels(st, b["isnull"]) + [";"]])
    if b["isunset"]: g.append([[st.kw("isunset")] + rlabels(st, b["isunset"]) + [";"]])
    for x in st.merge(g): o += x
    return o + ["}", ";"]

ALIAS = {"bits": ["bits", "bitfield"], "real": ["real", "double"], "int": ["int", "integer"], "password": ["password", "passwd"], "text": ["text", "txt"]}

def t_field(st, f):
    o = [st.kw("field"), st.id(f["name"])]
    if f["ref"]: o += [":", st.id(f["ref"][0]), ".", st.id(f["ref"][1])]
    t = f["type"]
    info = []
    if f["rowid"]: info.append([st.kw("rowid")])
    if f["unique"]: info.append([st.kw("unique")])
    if f["null"]: info.append([st.kw("null")])
    if f["noexport"]: info.append([st.kw("noexport")])
    if f["default"] is not None:
        k, v = f["default"]
        info.append([st.kw("default"), q(v) if k == "str" else st.id(v) if k == "ident" else v])
    lim = []
    for op, v in f["limits"]: lim += [[st.kw("limit"), st.kw(op), v]]
    if f["actdel"]: info.append([st.kw("actdel"), st.kw(f["actdel"])])
    if f["actup"]: info.append([st.kw("actup"), st.kw(f["actup"])])
    if f["comment"] is not None: info.append(rcomment(st, f["comment"]))
    if not (t == "int" and not info and not lim and not (st.r is None) and st.r.random() < .5):
        w = t
        if st.r and st.aliases and t in ALIAS: w = st.r.choice(ALIAS[t])
        o.append(st.kw(w))
        if t == "enum": o.append(st.id(f["enum"]))
        if t == "bits": o.append(st.id(f["bits"]))
        if t == "struct": o.append(st.id(f["src"]))
    for x in st.merge([[i] for i in st.shuf(info)] + [lim]): o += x
    return o + [";"]

def t_query(st, qq):
    o = [st.kw(qq["type"])]
    for i, (path, op) in enumerate(qq["terms"]):
        if i: o.append(",")
        o += rpath(st, path)
        if op != "eq" or (st.r and st.r.random() < .3): o.append(st.kw(op))
    par = []
    if qq["name"]: par.append([st.kw("name"), st.id(qq["name"])])
    if qq["comment"] is not None: par.append(rcomment(st, qq["comment"]))
    if qq["order"]:
        a = [st.kw("order")]
        for i, (path, d) in enumerate(qq["order"]):
            if i: a.append(",")
            a += rpath(st, path)
            if d: a.append(st.kw(d))
        par.append(a)
    if qq["limit"] is not None:
        a = [st.kw("limit"), str(qq["limit"])]
        if qq["offset"] is not None: a += [",", str(qq["offset"])]
        par.append(a)
    if qq["group"]: par.append([st.kw("grouprow")] + rpath(st, qq["group"]))
    if qq["aggr"]: par.append([st.kw(qq["aggr"][0])] + rpath(st, qq["aggr"][1]))
    if qq["distinct"]: par.append([st.kw("distinct")] + rpath(st, qq["distinct"]))
    if par:
        o.append(":")
        for x in st.shuf(par): o += x
    return o + [";"]

def t_update(st, u, mod):
    o = [st.kw("update" if mod else "delete")]
    if mod and u["mods"]:
        for i, (f, m) in enumerate(u["mods"]):
            if i: o.append(",")
            o.append(st.id(f))
            if m: o.append(st.kw(m))
    par = []
    if u["name"]: par.append([st.kw("name"), st.id(u["name"])])
    if u["comment"] is not None: par.append(rcomment(st, u["comment"]))
    if mod and (u["cons"] or par): o.append(":")
    for i, (f, op) in enumerate(u["cons"]):
        if i: o.append(",")
        o.append(st.id(f))
        if op != "eq" or (st.r and st.r.random() < .3): o.append(st.kw(op))
    if par:
        o.append(":")
        for x in st.shuf(par): o += x
    return o + [";"]

def t_roles(st, rr):
    o = [st.kw("roles")]
    for i, x in enumerate(rr["roles"]):
        if i: o.append(",")
        o.append(st.id(x))
    o.append("{")
    for t, n in rr["ops"]:
        o.append(st.kw(t))
        if n: o.append(st.id(n))
        o.append(";")
    return o + ["}", ";"]

def t_struct(st, s):
    o = [st.kw("struct"), st.id(s["name"]), "{"]
    g = [[t_field(st, f) for f in s["fields"]]]
    if s["comment"] is not None: g.append([rcomment(st, s["comment"]) + [";"]])
    if s["insert"]: g.append([[st.kw("insert"), ";"]])
    g.append([t_query(st, x) for x in s["queries"]])
    g.append([t_update(st, x, True) for x in s["updates"]])
    g.append([t_update(st, x, False) for x in s["deletes"]])
    g.append([[st.kw("unique")] + sum(([","] * (i > 0) + [st.id(f)] for i, f in enumerate(u)), []) + [";"] for u in s["uniques"]])
    g.append([t_roles(st, x) for x in s["roles"]])
    for x in st.merge(g): o += x
    return o + ["}", ";"]

def t_role(st, x):
    o = [st.kw("role"), st.id(x["name"])] + rcomment(st, x["comment"])
    if x["subs"]:
        o.append("{")
        for y in x["subs"]: o += t_role(st, y)
        o.append("}")
    return o + [";"]

def t_rolesblock(st, rs):
    o = [st.kw("roles"), "{"]
    for x in rs: o += t_role(st, x)
    return o + ["}", ";"]

def toplevel(cfg, st=None):
    """List of token lists, one per top-level object."""
    st = st or Style()
    g = []
    if cfg["roles"] is not None: g.append(("roles", t_rolesblock(st, cfg["roles"])))
    for e in cfg["enums"]: g.append(("enum " + e["name"], t_enum(st, e)))
    for b in cfg["bits"]: g.append(("bits " + b["name"], t_bits(st, b)))
    for s in cfg["structs"]: g.append(("struct " + s["name"], t_struct(st, s)))
    return st.shuf(g)

def render(cfg, st=None, toks=False):
    if st is None or st.r is None:
        return pretty(cfg)
    return "".join(st.sp(t) + "\n" for _, t in toplevel(cfg, st))

def pretty(cfg):
    out = []
    for _, t in toplevel(cfg, Style()):
        line = []; ind = 0
        for x in t:
            line.append(x)
            if x == "{": out.append("  " * ind + " ".join(line)); line = []; ind += 1
            elif x == "}": line.pop(); ind -= 1; line = ["}"]
            elif x == ";": out.append("  " * ind + " ".join(line)); line = []
        if line: out.append(" ".join(line))
    return "\n".join(out) + "\n"

# ---------------------------------------------------------------- derivations

def enumvals(e):
    """Item name -> value, with automatic assignment as ort(5) says."""
    m = [i["value"] for i in e["items"] if i["value"] is not None]
    nxt = max(m) + 1 if m and max(m) >= 0 else 0
    d = {}
    for i in e["items"]:
        if i["value"] is not None: d[i["name"]] = i["value"]
        else: d[i["name"]] = nxt; nxt += 1
    return d

# ------------------------------------------------------------------ shrinking

def reductions(cfg):
    """Smaller variants of a configuration, coarse first.  They need not be valid."""
    def cut(path):
        c = copy.deepcopy(cfg); x = c
        for k in path[:-1]: x = x[k]
        del x[path[-1]]
        return c
    def put(path, v):
        c = copy.deepcopy(cfg); x = c
        for k in path[:-1]: x = x[k]
        x[path[-1]] = v
        return c
    for k in ("structs", "enums", "bits"):
        for i in range(len(cfg[k]) - 1, -1, -1): yield cut([k, i])
    if cfg["roles"] is not None:
        c = copy.deepcopy(cfg); c["roles"] = None
        for s in c["structs"]: s["roles"] = []
        yield c
        for i in range(len(cfg["roles"])): yield cut(["roles", i])
    for si, s in enumerate(cfg["structs"]):
        for k in ("queries", "updates", "deletes", "uniques", "roles", "fields"):
            if len(s[k]) > 1 and k != "fields": yield put(["structs", si, k], [])
            for i in range(len(s[k]) - 1, -1, -1): yield cut(["structs", si, k, i])
        if s["insert"]: yield put(["structs", si, "insert"], False)
        if s["comment"] is not None: yield put(["structs", si, "comment"], None)
        for i, f in enumerate(s["fields"]):
            b = ["structs", si, "fields", i]
            for k in ("null", "unique", "noexport"):
                if f[k]: yield put(b + [k], False)
            for k in ("default", "comment", "actdel", "actup"):
                if f[k] is not None: yield put(b + [k], None)
            for j in range(len(f["limits"])): yield cut(b + ["limits", j])
            if f["type"] not in ("int", "struct") and not f["ref"]:
                c = put(b + ["type"], "int"); g = c["structs"][si]["fields"][i]; g["enum"] = g["bits"] = None; g["default"] = None; g["limits"] = []
                yield c
        for i, x in enumerate(s["queries"]):
            b = ["structs", si, "queries", i]
            for j in range(len(x["terms"])): yield cut(b + ["terms", j])
            for j in range(len(x["order"])): yield cut(b + ["order", j])
            if x["group"]:
                c = put(b + ["group"], None); c["structs"][si]["queries"][i]["aggr"] = None; yield c
            for k in ("limit", "offset", "distinct", "comment", "name"):
                if x[k] is not None and (k != "limit" or x["offset"] is None): yield put(b + [k], None)
        for k in ("updates", "deletes"):
            for i, x in enumerate(s[k]):
                b = ["structs", si, k, i]
                if x["mods"]:
                    for j in range(len(x["mods"])): 
                        if len(x["mods"]) > 1: yield cut(b + ["mods", j])
                for j in range(len(x["cons"])): yield cut(b + ["cons", j])
                for kk in ("comment", "name"):
                    if x[kk] is not None: yield put(b + [kk], None)
        for i, x in enumerate(s["roles"]):
            b = ["structs", si, "roles", i]
            if len(x["roles"]) > 1:
                for j in range(len(x["roles"])): yield cut(b + ["roles", j])
            if len(x["ops"]) > 1:
                for j in range(len(x["ops"])): yield cut(b + ["ops", j])
    for k in ("enums", "bits"):
        for i, e in enumerate(cfg[k]):
            for j in range(len(e["items"])):
                if len(e["items"]) > 1: yield cut([k, i, "items", j])
            for j, it in enumerate(e["items"]):
                for kk in ("comment",):
                    if it[kk] is not None: yield put([k, i, "items", j, kk], None)
                if it["labels"]: yield put([k, i, "items", j, "labels"], [])
            for kk in ("isnull", "isunset"):
                if e.get(kk): yield put([k, i, kk], [])
            if e["comment"] is not None: yield put([k, i, "comment"], None)

def shrink(cfg, bad, budget=400):
    """Greedy delta-debugging: bad(cfg) says that the failure persists."""
    n = 0; progress = True
    while progress and n < budget:
        progress = False
        for c in reductions(cfg):
            n += 1
            if n >= budget: break
            try: ok = bad(c)
            except Exception: ok = False
            if ok:
                cfg = c; progress = True; break
    return cfg
