"""Reference reader of ort(5): bytes -> model, or Reject.  Written from ort(5), with the
error list of the tools for what the manual leaves open.

Unsure is raised where neither the manual nor an obvious reading settles whether
the text is acceptable: such cases are not judged.
"""
import re
import ortgen
MAX = 2**63 - 1

class Reject(Exception): pass
class Unsure(Exception): pass

SP = b" \t\n\v\f\r"
LET = set(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")
DIG = set(b"0123456789")

def lex(b):
    """Token list: (kind, value, offset)."""
    out = []; i = 0; n = len(b)
    while i < n:
        c = b[i]
        if c in SP: i += 1; continue
        if c == 0x23:
            j = b.find(b"\n", i)
            if j < 0: break
            i = j + 1; continue
        st = i
        if c in b"{};,.:":
            out.append((chr(c), None, st)); i += 1; continue
        if c == 0x22:
            i += 1; buf = bytearray(); last = 32
            while i < n and not (b[i] == 0x22 and last != 0x5c):
                d = b[i]
                if last == 13 and d == 10: buf.pop()
                buf.append(d); last = d; i += 1
            if 0 in buf: raise Unsure("NUL in a string")
            i += 1
            out.append(("L", buf.decode("latin-1"), st)); continue
        neg = False
        if c == 0x2d:
            i += 1
            if i >= n or b[i] not in DIG: raise Reject("expected digit")
            neg = True; c = b[i]
        if c in DIG:
            j = i; dot = False
            while j < n and (b[j] in DIG or b[j] == 0x2e and not dot):
                dot = dot or b[j] == 0x2e
                j += 1
            t = ("-" if neg else "") + b[i:j].decode()
            i = j
            if dot:
                if len(t) > 250: raise Unsure("extreme decimal")
                out.append(("D", t, st))
            else:
                if not -MAX <= int(t) <= MAX: raise Reject("integer out of range")
                out.append(("I", t, st))
            continue
        if c in LET:
            j = i
            while j < n and (b[j] in LET or b[j] in DIG): j += 1
            out.append(("W", b[i:j].decode().lower(), st)); i = j; continue
        raise Reject("unknown input token")
    return out

TYPES = {"bit": "bit", "bitfield": "bits", "bits": "bits", "blob": "blob", "date": "date", "double": "real", "email": "email", "enum": "enum",
         "epoch": "epoch", "int": "int", "integer": "int", "passwd": "password", "password": "password", "real": "real", "struct": "struct", "text": "text", "txt": "text"}
VOPS = {"ge", "le", "gt", "lt", "eq"}
OPS = {"eq", "ge", "gt", "le", "lt", "neq", "like", "and", "or", "streq", "strneq", "isnull", "notnull"}
MODS = {"concat", "dec", "inc", "set", "strset"}
RMAP = {"all", "count", "delete", "insert", "iterate", "list", "search", "update", "noexport"}
ACTS = {"none", "restrict", "nullify", "cascade", "default"}

def rej(m): raise Reject(m)

class P:
    def __init__(self, toks): self.t = toks; self.i = 0
    @property
    def k(self): return self.t[self.i][0] if self.i < len(self.t) else "E"
    @property
    def v(self): return self.t[self.i][1] if self.i < len(self.t) else None
    def adv(self): self.i += 1
    def want(self, k, m=None):
        if self.k != k: rej("expected %s" % (m or k))
        v = self.v; self.adv(); return v
    def word(self, m): return self.want("W", m)
    def isw(self, w): return self.k == "W" and self.v == w

def okid(n):
    if n in ortgen.BADSET: rej("reserved identifier " + n)
    return n

def comment(p, old):
    """After the keyword."""
    v = p.want("L", "quoted string")
    if old is not None: rej("duplicate comment")
    return v

def label(p, ls):
    """After the keyword jslabel."""
    lang = ""
    if p.k == ".":
        p.adv(); lang = p.word("language")
    t = p.want("L", "label")
    if t == "": rej("empty label")
    if any(a == lang for a, _ in ls): rej("duplicate label")
    ls.append([lang, t])

def labels(p, ls):
    while p.k != ";":
        if not p.isw("jslabel"): rej("expected jslabel")
        p.adv(); label(p, ls)
    p.adv()

def items(p, o, bits):
    p.want("{")
    while p.k != "}":
        w = p.word("attribute")
        if w == "comment":
            o["comment"] = comment(p, o["comment"]); p.want(";")
        elif w == "isnull":
            if o["_n"]: raise Unsure("isnull given twice")
            o["_n"] = True
            labels(p, o["isnull"])
        elif bits and w in ("isunset", "unset"):
            if o["_u"]: raise Unsure("isunset given twice")
            o["_u"] = True
            labels(p, o["isunset"])
        elif w == "item":
            n = okid(p.word("item name"))
            if not bits and n == "format": rej("reserved item name")
            if any(x["name"] == n for x in o["items"]): rej("duplicate item")
            it = {"name": n, "value": None, "comment": None, "labels": []}
            if bits:
                v = int(p.want("I", "bit index"))
                if not 0 <= v <= 63: rej("bit index")
                if any(x["value"] == v for x in o["items"]): rej("duplicate bit index")
                it["value"] = v
            elif p.k == "I":
                v = int(p.v); p.adv()
                if v == MAX or v == -MAX - 1: rej("enum value")
                if v in (2**31 - 1, -2**31): raise Unsure("32-bit bounds: manual and tests differ")
                if any(x["value"] == v for x in o["items"]): rej("duplicate enum value")
                it["value"] = v
            o["items"].append(it)
            while p.k == "W":
                if p.v == "comment":
                    p.adv(); it["comment"] = comment(p, it["comment"])
                elif p.v == "jslabel":
                    p.adv(); label(p, it["labels"])
                else: rej("item attribute")
            p.want(";")
        else: rej("unknown attribute " + w)
    p.adv(); p.want(";")
    if not o["items"]: rej("no items")
    if not bits and any(x["value"] is None for x in o["items"]):
        m = max([x["value"] for x in o["items"] if x["value"] is not None], default=-1)
        nauto = sum(x["value"] is None for x in o["items"])
        if max(m, -1) + nauto >= MAX: raise Reject("overflow")
    del o["_n"]; o.pop("_u", None)

def top(cfg, p, n):
    if any(x["name"] == n for k in ("enums", "bits", "structs") for x in cfg[k]): rej("duplicate top-level name")
    return okid(n)

def field(p, s):
    n = okid(p.word("field name"))
    if any(f["name"] == n for f in s["fields"]): rej("duplicate field")
    f = {"name": n, "type": "int", "ref": None, "src": None, "enum": None, "bits": None, "null": False, "unique": False,
         "rowid": False, "noexport": False, "default": None, "limits": [], "comment": None, "actdel": None, "actup": None}
    s["fields"].append(f)
    if p.k == ";": p.adv(); return
    if p.k == ":":
        p.adv(); a = p.word("target struct"); p.want("."); b = p.word("target field"); f["ref"] = [a, b]
        if p.k == ";": p.adv(); return
    t = p.word("type")
    if t not in TYPES: rej("unknown type")
    t = f["type"] = TYPES[t]
    if t == "bits": f["bits"] = p.word("bitfield name")
    elif t == "enum": f["enum"] = p.word("enum name")
    elif t == "struct":
        if f["ref"]: rej("reference of struct type")
        f["src"] = p.word("source")
    rid = any(x["rowid"] for x in s["fields"])
    while p.k != ";":
        w = p.word("field info")
        if w == "rowid":
            if rid: rej("multiple rowids")
            if t != "int" or f["ref"] or f["null"]: rej("bad rowid")
            f["unique"] = False; f["rowid"] = rid = True
        elif w == "noexport": f["noexport"] = True
        elif w == "limit":
            if t in ("struct", "enum", "bits"): rej("limit on " + t)
            op = p.word("limit operator")
            if op not in VOPS: rej("limit operator")
            if t == "real":
                if p.k not in "DI": rej("limit value")
            elif p.k != "I": rej("limit value")
            v = p.v; p.adv()
            if t in ("blob", "text", "email", "password") and int(v) < 0: rej("negative length")
            val = float(v) if t == "real" else int(v)
            if any(o == op and x == val for o, x in f["limits"]): rej("duplicate limit")
            f["limits"].append((op, val))
        elif w == "unique":
            if t == "struct": rej("unique struct")
            if not f["rowid"]: f["unique"] = True
        elif w == "null":
            if f["rowid"] or t == "struct": rej("null")
            f["null"] = True
        elif w == "comment": f["comment"] = comment(p, f["comment"])
        elif w in ("actup", "actdel"):
            if not f["ref"] or t == "struct": rej("action on non-reference")
            a = p.word("action")
            if a not in ACTS: rej("unknown action")
            f[w] = a
        elif w == "default":
            if t == "date":
                y = p.want("I", "year"); m = p.want("I", "month"); d = p.want("I", "day")
                if m[0] != "-" or d[0] != "-": rej("date")
                if not 1 <= -int(m) <= 12 or not 1 <= -int(d) <= 31: rej("date")
                if not 0 <= int(y) <= 9999: raise Unsure("extreme year")
                f["default"] = ["date", (int(y), -int(m), -int(d))]
            elif t in ("bit", "bits", "epoch", "int"): f["default"] = ["int", p.want("I", "integer")]
            elif t == "real":
                if p.k not in "DI": rej("default")
                f["default"] = ["real", p.v]; p.adv()
            elif t in ("text", "email"): f["default"] = ["str", p.want("L", "string")]
            elif t == "enum": 
                w = p.word("item")
                f.setdefault("_defs", []).append(w)
                f["default"] = ["ident", w]
            else: rej("default for type")
        else: rej("unknown field info " + w)
    p.adv()
    a = (f["actup"], f["actdel"])
    if "default" in a and not f["null"] and f["default"] is None: rej("default action")
    if "nullify" in a and not f["null"]: rej("nullify action")

def path(p, m):
    o = [p.word(m)]
    while p.k == ".":
        p.adv(); o.append(p.word(m))
    return o

def query(p, s, t):
    q = {"type": t, "terms": [], "name": None, "comment": None, "order": [], "limit": None, "offset": None, "group": None, "aggr": None, "distinct": None}
    s["queries"].append(q)
    if p.k == "W":
        while True:
            a = path(p, "field"); op = "eq"
            if p.k == "W":
                op = p.v
                if op not in OPS: rej("unknown operator")
                p.adv()
            q["terms"].append([a, op])
            if p.k != ",": break
            p.adv()
    if p.k == ";": p.adv(); return
    p.want(":")
    while p.k != ";":
        w = p.word("parameter")
        if w == "name":
            n = p.word("query name")
            if any(x["name"] == n for x in s["queries"] if x is not q): rej("duplicate query name")
            if q["name"] is not None: raise Unsure("name given twice")
            q["name"] = n
        elif w == "comment": q["comment"] = comment(p, q["comment"])
        elif w == "limit":
            v = p.want("I", "limit")
            if int(v) < 0: rej("negative limit")
            q["limit"] = int(v)
            if p.k == ",":
                p.adv(); v = p.want("I", "offset")
                if int(v) < 0: rej("negative offset")
                q["offset"] = int(v)
        elif w in ("minrow", "maxrow"):
            if q["aggr"]: rej("aggregate given twice")
            q["aggr"] = [w, path(p, "field")]
        elif w == "grouprow":
            if q["group"]: rej("group given twice")
            q["group"] = path(p, "field")
        elif w == "order":
            while True:
                a = path(p, "field"); d = None
                if p.k == "W" and p.v in ("asc", "desc"): d = p.v; p.adv()
                q["order"].append([a, d])
                if p.k != ",": break
                p.adv()
        elif w == "distinct":
            if q["distinct"]: rej("distinct given twice")
            if p.k == ".": p.adv(); q["distinct"] = ["."]
            else: q["distinct"] = path(p, "field")
        else: rej("unknown parameter " + w)
    p.adv()
    if (q["group"] is None) != (q["aggr"] is None): rej("group and aggregate come together")

def update(p, s, mod):
    u = {"mods": None, "cons": [], "name": None, "comment": None}
    s["updates" if mod else "deletes"].append(u)
    if mod:
        if p.k == ";": p.adv(); return
        if p.k == "W":
            u["mods"] = []
            while True:
                n = p.word("field"); m = None
                if p.k == "W":
                    m = p.v
                    if m not in MODS: rej("bad modifier")
                    p.adv()
                u["mods"].append([n, m])
                if p.k != ",": break
                p.adv()
            if p.k == ";": p.adv(); return
        p.want(":")
    if p.k == ";": p.adv(); return
    if p.k != ":":
        while True:
            n = p.word("field"); op = "eq"
            if p.k == "W":
                op = p.v
                if op not in OPS: rej("unknown operator")
                p.adv()
            u["cons"].append([n, op])
            if p.k != ",": break
            p.adv()
        if p.k == ";": p.adv(); return
    p.want(":")
    while p.k != ";":
        w = p.word("term")
        if w == "name":
            n = p.word("name")
            if u["name"] is not None: raise Unsure("name given twice")
            if any(x["name"] == n for x in s["updates" if mod else "deletes"] if x is not u): rej("duplicate name")
            u["name"] = n
        elif w == "comment": u["comment"] = comment(p, u["comment"])
        else: rej("unknown term")
    p.adv()

def sroles(p, s):
    rr = {"roles": [], "ops": []}; s["roles"].append(rr)
    while True:
        n = p.word("role")
        if n == "none": rej("role none")
        rr["roles"].append(n)
        if p.k == "{": break
        p.want(",")
    p.adv()
    while p.k != "}":
        t = p.word("operation")
        if t not in RMAP: rej("unknown operation")
        n = None
        if p.k == "W":
            if t in ("insert", "all"): rej("named " + t)
            n = p.v; p.adv()
        elif t not in ("insert", "noexport", "all"): rej("unnamed " + t)
        rr["ops"].append([t, n])
        p.want(";")
    p.adv(); p.want(";")

def struct(p, cfg):
    n = top(cfg, p, p.word("struct name"))
    s = {"name": n, "comment": None, "fields": [], "insert": False, "queries": [], "updates": [], "deletes": [], "uniques": [], "roles": []}
    cfg["structs"].append(s)
    p.want("{")
    while p.k != "}":
        w = p.word("statement")
        if w == "comment": s["comment"] = comment(p, s["comment"]); p.want(";")
        elif w in ("search", "list", "iterate", "count"): query(p, s, w)
        elif w == "update": update(p, s, True)
        elif w == "delete": update(p, s, False)
        elif w == "insert":
            if s["insert"]: rej("insert given twice")
            s["insert"] = True; p.want(";")
        elif w == "unique":
            u = [p.word("field")]
            while p.k == ",": p.adv(); u.append(p.word("field"))
            p.want(";")
            if len(u) < 2: rej("unique of one field")
            s["uniques"].append(u)
        elif w == "roles": sroles(p, s)
        elif w == "field": field(p, s)
        else: rej("unknown statement " + w)
    p.adv(); p.want(";")
    if not s["fields"]: rej("no fields")

def role(p, names):
    if not p.isw("role"): rej("expected role")
    p.adv(); n = p.word("role name")
    if n in ("default", "none", "all"): rej("reserved role")
    okid(n)
    if n in names: rej("duplicate role")
    names.add(n)
    x = {"name": n, "comment": None, "subs": []}
    if p.k == "W":
        if p.v != "comment": rej("expected comment")
        p.adv(); x["comment"] = comment(p, None)
    if p.k == "{":
        p.adv()
        while p.k != "}": x["subs"].append(role(p, names))
        p.adv()
    p.want(";")
    return x

def parse(*bufs):
    cfg = {"roles": None, "enums": [], "bits": [], "structs": []}
    for b in bufs:
        p = P(lex(b))
        while p.k != "E":
            w = p.word("top-level")
            if w == "roles":
                if cfg["roles"] is not None: rej("roles given twice")
                cfg["roles"] = []; names = set()
                p.want("{")
                while p.k != "}": cfg["roles"].append(role(p, names))
                p.adv(); p.want(";")
            elif w == "struct": struct(p, cfg)
            elif w in ("enum", "bits", "bitfield"):
                o = {"name": None, "comment": None, "items": [], "isnull": [], "_n": False}
                if w != "enum": o["isunset"] = []; o["_u"] = False
                o["name"] = top(cfg, p, p.word("name"))
                cfg["enums" if w == "enum" else "bits"].append(o)
                items(p, o, w != "enum")
            else: rej("unknown top-level " + w)
    return cfg

# ------------------------------------------------------------- cross references

def chain(cfg, S, s, pa):
    """The field at the end of a path; rejects like the rules say."""
    for i, n in enumerate(pa):
        F = {f["name"]: f for f in s["fields"]}
        if n not in F: rej("field not found " + n)
        f = F[n]
        if i == len(pa) - 1: return s, f
        if f["type"] != "struct": rej("non-terminal not a struct")
        g = F[f["src"]]
        if g["null"]: rej("non-terminal null")
        s = S[g["ref"][0]]

def check(cfg):
    """Rules across objects; raises Reject."""
    if not cfg["structs"]: rej("no structures")
    S = {s["name"]: s for s in cfg["structs"]}; E = {e["name"]: e for e in cfg["enums"]}; B = {b["name"] for b in cfg["bits"]}
    R = set(ortgen.allroles(cfg)) | ({"all", "default", "none"} if cfg["roles"] is not None else set())
    for s in cfg["structs"]:
        F = {f["name"]: f for f in s["fields"]}
        for f in s["fields"]:
            if f["ref"]:
                a, b = f["ref"]
                T = [g for g in S[a]["fields"] if g["name"] == b] if a in S else []
                if not T: rej("unknown reference target")
                g = T[0]
                if g["type"] != f["type"]: rej("reference type")
                if not (g["rowid"] or g["unique"]): rej("reference to non-unique")
            if f["type"] == "enum":
                if f["enum"] not in E: rej("unknown enum")
                for d in f.get("_defs", []):
                    if d not in {i["name"] for i in E[f["enum"]]["items"]}: rej("unknown enum item")
            if f["type"] == "bits" and f["bits"] not in B: rej("unknown bitfield")
            if f["type"] == "struct":
                if f["src"] not in F: rej("unknown struct source")
                g = F[f["src"]]
                if g["type"] == "struct" or not g["ref"]: rej("struct source is no reference")
    # recursion
    edges = {s["name"]: [{f["name"]: f for f in s["fields"]}[f["src"]]["ref"][0] for f in s["fields"] if f["type"] == "struct"] for s in cfg["structs"]}
    state = {}
    def visit(n):
        state[n] = 1
        for m in edges[n]:
            if state.get(m) == 1: rej("recursive structures")
            if m not in state: visit(m)
        state[n] = 2
    for n in edges:
        if n not in state: visit(n)
    size = {}
    def alias(n):
        if n not in size: size[n] = sum(1 + alias(m) for m in edges[n])
        return size[n]
    tot = sum(alias(n) for n in edges)
    if tot > 26**3 - 10: raise Unsure("many aliases")
    for s in cfg["structs"]:
        F = {f["name"]: f for f in s["fields"]}
        us = []
        for u in s["uniques"]:
            for n in u:
                if n not in F: rej("unknown unique field")
                if F[n]["type"] == "struct": rej("unique struct field")
            if len(set(u)) != len(u): rej("unique field twice")
            if sorted(u) in us: rej("duplicate unique")
            us.append(sorted(u))
        for k in ("updates", "deletes"):
            for u in s[k]:
                for n, m in (u["mods"] or []):
                    if n not in F: rej("unknown modifier field")
                    t = F[n]["type"]
                    if t == "struct": rej("modifier struct")
                    if m == "concat" and t not in ("blob", "text", "email"): rej("concat")
                    if m in ("inc", "dec") and t not in ("bit", "bits", "date", "enum", "epoch", "int", "real"): rej("inc or dec")
                for n, op in u["cons"]:
                    if n not in F: rej("unknown constraint field")
                    t = F[n]["type"]
                    if t == "struct": rej("constraint struct")
                    if t == "password" and op not in ("streq", "strneq", "isnull", "notnull"): rej("constraint password")
                    if op == "like" and t not in ("text", "email"): rej("like")
                    if op in ("and", "or") and t not in ("bit", "bits", "int"): rej("bit operation")
        for q in s["queries"]:
            for pa, op in q["terms"]:
                _, f = chain(cfg, S, s, pa); t = f["type"]
                if t == "struct": rej("terminal struct")
                if op in ("and", "or") and t not in ("bit", "bits", "int"): rej("bit operation")
                if op == "like" and t not in ("text", "email"): rej("like")
                if t == "password":
                    if op not in ("isnull", "notnull", "eq", "neq", "streq", "strneq"): rej("password operator")
                    if (q["type"] == "count" or q["distinct"]) and op in ("eq", "neq"): rej("password operator in count or distinct")
            for pa, d in q["order"]:
                if chain(cfg, S, s, pa)[1]["type"] == "struct": rej("order by struct")
            if q["distinct"] and q["distinct"] != ["."]:
                T, f = chain(cfg, S, s, q["distinct"])
                if f["type"] != "struct": rej("distinct non-struct")
                if {g["name"]: g for g in T["fields"]}[f["src"]]["null"]: rej("distinct null")
            if q["group"]:
                a = chain(cfg, S, s, q["group"]); b = chain(cfg, S, s, q["aggr"][1])
                for _, f in (a, b):
                    if f["type"] in ("struct", "password") or f["null"]: rej("group field")
                if a[1] is b[1]: rej("group and aggregate of the same field")
                if a[0] is not b[0]: rej("group and aggregate of different structures")
                if q["group"][:-1] != q["aggr"][1][:-1]: raise Unsure("group and aggregate of one structure along different paths")
        seen = set()
        for rr in s["roles"]:
            if rr["ops"]:
                for n in rr["roles"]:
                    if n not in R: rej("unknown role")
            elif any(n not in R for n in rr["roles"]): raise Unsure("unknown role without operations")
            elif len(set(rr["roles"])) != len(rr["roles"]): raise Unsure("role twice without operations")
            for t, n in rr["ops"]:
                if t == "insert" and not s["insert"]: rej("no insert")
                if t in ("search", "list", "iterate", "count") and not any(q["type"] == t and q["name"] == n for q in s["queries"]): rej("no such query")
                if t in ("update", "delete") and not any(u["name"] == n for u in s[t + "s"]): rej("no such " + t)
                if t == "noexport" and n is not None and n not in F: rej("no such field")
                for x in rr["roles"]:
                    if (x, t, n) in seen: rej("duplicate role of an operation")
                    seen.add((x, t, n))

def judge(*bufs):
    """(accepted, model or reason); raises Unsure."""
    try:
        cfg = parse(*bufs); check(cfg)
        return True, cfg
    except Reject as e:
        return False, str(e)

# ----------------------------------------------------------------- comparison

def norm(cfg):
    """What a model means, free of presentation."""
    import model
    def lab(l): return sorted(map(tuple, l))
    o = {}
    o["roles"] = None
    if cfg["roles"] is not None:
        par = {}
        def w(rs, p):
            for x in rs: par[x["name"]] = (p, x["comment"]); w(x["subs"], x["name"])
        w(cfg["roles"], None); o["roles"] = par
    for k in ("enums", "bits"):
        o[k] = {}
        for e in cfg[k]:
            v = ortgen.enumvals(e)
            o[k][e["name"]] = (e["comment"], lab(e["isnull"]), lab(e.get("isunset", [])), [(i["name"], v[i["name"]], i["comment"], lab(i["labels"])) for i in e["items"]])
    o["structs"] = {}
    for s in cfg["structs"]:
        F = []
        for f in s["fields"]:
            d = f["default"]
            if d and d[0] in ("int", "real"): d = (d[0], float(d[1]) if d[0] == "real" else int(d[1]))
            if d and d[0] == "date": d = ("date", model.days(*d[1]))
            F.append((f["name"], f["type"], f["ref"], f["src"], f["enum"], f["bits"], f["null"], f["unique"], f["rowid"], f["noexport"], tuple(d) if d else None,
                      list(f["limits"]), f["comment"], f["actdel"] or "none", f["actup"] or "none"))
        Q = [(q["type"], [(p, op) for p, op in q["terms"]], q["name"], q["comment"], [(p, d or "asc") for p, d in q["order"]], q["limit"] or 0, q["offset"] or 0, q["group"], q["aggr"], q["distinct"]) for q in s["queries"]]
        U = {k: [(model.updmods(s, u) if k == "updates" else None, u["cons"], u["name"], u["comment"]) for u in s[k]] for k in ("updates", "deletes")}
        ops = [("insert", None)] if s["insert"] else []
        ops += [(q["type"], q["name"]) for q in s["queries"]] + [("update", u["name"]) for u in s["updates"]] + [("delete", u["name"]) for u in s["deletes"]]
        RM = {repr(x): sorted(model.oproles(cfg, s, *x)) for x in ops}
        NE = {f["name"]: sorted(model.noexport_roles(cfg, s, f["name"])) for f in s["fields"]}
        o["structs"][s["name"]] = {"comment": s["comment"], "insert": s["insert"], "fields": F, "queries": Q, "ud": U, "uniques": sorted(sorted(u) for u in s["uniques"]), "ops": RM, "noexport": NE}
    return o

def diff(a, b, p=""):
    """First difference between two normal forms, or None."""
    if type(a) != type(b) and not (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple))): return "%s: %r / %r" % (p, a, b)
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a or k not in b: return "%s/%s only on one side" % (p, k)
            d = diff(a[k], b[k], p + "/" + str(k))
            if d: return d
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b): return "%s: %r / %r" % (p, a, b)
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, "%s[%d]" % (p, i))
            if d: return d
        return None
    return None if a == b else "%s: %r / %r" % (p, a, b)
