"""The SQL statements of generated code, read out of it, and an interpreter of them with the interface of crun's programs."""
import re, json, sqlite3, subprocess
import h, ortgen, model, cgen, crun, sqlref
from ortgen import sdict, fdict
from h import Bad, Skip

class Unread(Exception): pass
STR = re.compile(r'''\s*(?:"((?:[^"\\]|\\.)*)"|'((?:[^'\\]|\\.)*)')''', re.S)
def unesc(s): return re.sub(r"\\(.)", r"\1", s, flags=re.S)
def nocomment(t):
    return re.sub(r'''("(?:[^"\\]|\\.)*"|'(?:[^'\\]|\\.)*')|/\*.*?\*/|//[^\n]*''', lambda m: m.group(1) or " ", t, flags=re.S)
def expr(t, fns):
    """Value of a concatenation of literals and calls."""
    out = ""; i = 0
    while i < len(t):
        m = STR.match(t, i)
        if m: out += unesc(m.group(1) if m.group(1) is not None else m.group(2)); i = m.end(); continue
        m = re.compile(r"\s*(?:\+|String::new\(\)|&)\s*|\s+").match(t, i)
        if m and m.end() > i: i = m.end(); continue
        m = re.compile(r"(\w+)\(").match(t, i)
        if m and m.group(1) in fns:
            a = STR.match(t, m.end())
            if a and t[a.end():a.end() + 1] == ")":
                out += fns[m.group(1)](unesc(a.group(1) if a.group(1) is not None else a.group(2))); i = a.end() + 1; continue
        raise Unread(t[i:i + 60])
    return out
def split(t):
    """Parts between commas outside of literals and parentheses."""
    out = [""]; d = 0
    for m in re.finditer(r'''"(?:[^"\\]|\\.)*"|'(?:[^'\\]|\\.)*'|.''', t, re.S):
        x = m.group(0)
        if x == "," and d == 0: out.append(""); continue
        if x in "([{": d += 1
        if x in ")]}": d -= 1
        out[-1] += x
    return [x for x in out if x.strip()]
def block(t, i):
    """Text within the braces or brackets opening at or after i."""
    d = 0; st = None
    for m in re.compile(r'''"(?:[^"\\]|\\.)*"|'(?:[^'\\]|\\.)*'|[\[{\]}]''', re.S).finditer(t, i):
        x = m.group(0)
        if x in "[{":
            if d == 0: st = m.end()
            d += 1
        elif x in "]}":
            d -= 1
            if d == 0: return t[st:m.start()]
    raise Unread("unbalanced")
def find(p, t, what):
    m = re.search(p, t)
    if not m: raise Unread(what)
    return m
def enumnames(t): return [re.split(r"[\s=]", x.strip())[0] for x in split(t)]

def from_c(src):
    src = re.sub(r"(?m)^\s*#\s*include.*$", "", src)
    t = h.run(["gcc", "-E", "-P", "-w", "-x", "c", "-"], src)
    if t.rc: raise Unread(t.errtext[:300])
    t = t.out.decode()
    names = [n for n in enumnames(block(t, find(r"\benum\s+stmt\s*\{", t, "enum stmt").start())) if n != "STMT__MAX"]
    m = find(r"\bstmts\s*\[[^\]]*\]\s*=\s*\{", t, "stmts")
    v = [expr(x, {}) for x in split(block(t, m.end() - 1))]
    if len(v) != len(names): raise Unread("%d statements, %d names" % (len(v), len(names)))
    return dict(zip(names, v))

def from_ts(src):
    t = nocomment(src); fns = {}
    for m in re.finditer(r"\bfunction\s+(ort_schema_\w+)\s*\(\s*(\w+)\s*:\s*string\s*\)\s*:\s*string\s*\{", t):
        b = block(t, m.end() - 1).strip()
        if not b.startswith("return"): raise Unread("function")
        parts = [x.strip() for x in re.findall(r'''"(?:[^"\\]|\\.)*"|'(?:[^'\\]|\\.)*'|\w+''', b[6:])]
        p = m.group(2)
        if any(x[0] not in "'\"" and x != p for x in parts): raise Unread("function")
        fns[m.group(1)] = lambda a, parts=parts, p=p: "".join(a if x == p else unesc(x[1:-1]) for x in parts)
    names = enumnames(block(t, find(r"\benum\s+ortstmt\b", t, "enum").end()))
    m = find(r"\bortstmts\s*(?::[^=]*)?=\s*\[", t, "ortstmts")
    v = [expr(x, fns) for x in split(block(t, m.end() - 1))]
    if len(v) != len(names): raise Unread("%d statements, %d names" % (len(v), len(names)))
    return dict(zip(names, v))

def from_rust(src):
    t = nocomment(src.replace("'", "\x01")); fns = {}      # lifetimes; no character literals matter here
    i = find(r"\bmod\s+stmt\s*\{", t, "mod stmt").start(); t = block(t, i)
    for m in re.finditer(r"\bfn\s+(stmt_\w+)\s*\(\s*v\s*:\s*&str\s*\)\s*->\s*String\s*\{", t):
        b = block(t, m.end() - 1)
        parts = [unesc(x) for x in re.findall(r'format!\s*\(\s*"((?:[^"\\]|\\.)*)"', b)]
        fns[m.group(1)] = lambda a, parts=parts: "".join(x.replace("{}", a) for x in parts)
    out = {}
    b = block(t, find(r"\bmatch\s+v\s*\{", t, "match").end() - 1)
    for m in re.finditer(r"\bOrtstmt::(\w+)\s*=>\s*\{", b):
        x = block(b, m.end() - 1).strip()
        x = re.sub(r"^s\s*=", "", x).rstrip().rstrip(";")
        out[m.group(1)] = expr(x, fns).replace("\x01", "'")
    return out

def title(n): return n[0].upper() + n[1:]
def cname(s, kind, k): return "STMT_%s_%s" % (s, {"insert": "INSERT", "search": "BY_SEARCH_%s" % k, "unique": "BY_UNIQUE_%s" % k, "update": "UPDATE_%s" % k, "delete": "DELETE_%s" % k}[kind])
def rname(s, kind, k): return title(s) + {"insert": "Insert", "search": "BySearch%s" % k, "unique": "ByUnique%s" % title(str(k)), "update": "Update%s" % k, "delete": "Delete%s" % k}[kind]

def catalogue(cfg):
    """(structure, kind, key) of every statement that operations need, and what carries it out."""
    out = []
    refd = {(model.target(cfg, s, f)["name"], fdict(s)[f["src"]]["ref"][1]) for s in cfg["structs"] for f in s["fields"] if f["type"] == "struct" and fdict(s)[f["src"]]["null"]}
    for s in cfg["structs"]:
        for f in sqlref.cols(s):
            if (s["name"], f["name"]) in refd: out.append((s["name"], "unique", f["name"], f))
        for k, q in enumerate(s["queries"]): out.append((s["name"], "search", k, q))
        if s["insert"]: out.append((s["name"], "insert", None, None))
        for k, u in enumerate(s["updates"]): out.append((s["name"], "update", k, u))
        for k, u in enumerate(s["deletes"]): out.append((s["name"], "delete", k, u))
    return out

def width(cfg, s):
    """Columns of a structure with those it always embeds."""
    F = fdict(s); n = 0
    for f in s["fields"]:
        if f["type"] != "struct": n += 1
        elif not F[f["src"]]["null"]: n += width(cfg, model.target(cfg, s, f))
    return n

def hashed(pw, salt): return "$2b$08$%06d$%s" % (salt, ("%016x" % crun.fnv("%06d" % salt, pw)) + "0" * 28)

class Res: pass
class Interp:
    """Carries out operations with the statements."""
    def __init__(self, cfg, OPS, schema, sql, name):
        self.cfg = cfg; self.OPS = OPS; self.schema = schema; self.S = sdict(cfg); self.sql = sql; self.name = name
        self.key = {}
        for s in cfg["structs"]:
            for k, q in enumerate(s["queries"]): self.key[id(q)] = name(s["name"], "search", k)
            for k, q in enumerate(s["updates"]): self.key[id(q)] = name(s["name"], "update", k)
            for k, q in enumerate(s["deletes"]): self.key[id(q)] = name(s["name"], "delete", k)
    def open(self):
        self.db = sqlite3.connect(":memory:", isolation_level=None)
        self.db.text_factory = lambda b: b.decode("utf-8", "surrogateescape")
        self.db.executescript(self.schema)
        self.db.execute("PRAGMA foreign_keys=ON"); self.salt = 0
    def fill(self, s, row, pos):
        F = fdict(s); out = {}; later = []
        for f in s["fields"]:
            if f["type"] != "struct":
                v = row[pos[0]]; pos[0] += 1
                if v is not None:
                    if f["type"] == "real" and isinstance(v, int): v = float(v)
                    out[f["name"]] = (v, crun.enc(f, v))
                else: out[f["name"]] = (None, None)
        for f in s["fields"]:
            if f["type"] == "struct" and not F[f["src"]]["null"]: out[f["name"]] = self.fill(model.target(self.cfg, s, f), row, pos)
        for f in s["fields"]:
            if f["type"] == "struct" and F[f["src"]]["null"]:
                v = out[f["src"]][0]
                if v is None: out[f["name"]] = None; continue
                t = model.target(self.cfg, s, f)
                rows = self.db.execute(self.sql[self.name(t["name"], "unique", F[f["src"]]["ref"][1])], (v,)).fetchall()
                if len(rows) != 1: raise Bad("a row by its unique column: %s found" % ("none" if not rows else "several"), "%s.%s = %r" % (t["name"], F[f["src"]]["ref"][1], v))
                out[f["name"]] = self.fill(t, rows[0], [0])
        return out
    def json(self, s, rec):
        if rec is None: return None
        return {f["name"]: self.json(model.target(self.cfg, s, f), rec[f["name"]]) if f["type"] == "struct" else rec[f["name"]][1] for f in s["fields"]}
    def hash(self, pw): self.salt += 1; return hashed(pw, self.salt)
    def do(self, op, args):
        db = self.db; vals = [crun.dec(a) for a in args]
        for i, v in enumerate(vals):
            if isinstance(v, tuple):
                x = db.execute("SELECT %s FROM %s WHERE _rowid_ = ?" % (v[2], v[1]), (int(v[3]),)).fetchone()
                vals[i] = x[0] if x and x[0] is not None else ""
        if op.kind in ("insert", "update", "delete"):
            b = [self.hash(v) if f["type"] == "password" and v is not None and (k[0] == "val" or k[0] == "mod" and k[2] != "strset") else v for (_, f, _, k), v in zip(op.params, vals)]
            q = self.sql[self.key[id(op.x)] if op.x else self.name(op.s["name"], "insert", None)]
            try: c = db.execute(q, b)
            except sqlite3.IntegrityError:
                if op.kind == "delete": raise SystemExit
                return "I-1" if op.kind == "insert" else "U0"
            return "I%d" % c.lastrowid if op.kind == "insert" else "U1" if op.kind == "update" else "D"
        q = op.x; b = []; pw = []
        for (ps, f, _, k), v in zip(op.params, vals):
            path, o = q["terms"][k[1]]
            if f["type"] == "password" and o in ("eq", "neq"): pw.append((path, o, v))
            else: b.append(v)
        st = self.sql[self.key[id(q)]]
        rows = db.execute(st, b).fetchall()
        if op.kind == "count": return "C%d" % rows[0][0]
        out = []
        for row in rows:
            rec = self.fill(op.ret, row, [0]); ok = True
            for path, o, v in pw:
                x = rec
                for n in path: x = x and x[n]
                if x is None or x[0] is None or crun.verifies(x[0], v) != (o == "eq"): ok = False
            if ok: out.append(self.json(op.ret, rec))
            if ok and op.kind == "search": break
        return out
    def play(self, ctx, lines):
        r = Res(); r.timeout = False; r.rc = 0; r.errtext = ""; out = []
        self.open()
        for l in lines:
            t = l.split()
            try:
                if t[0] == "dump":
                    d = {}
                    for s in self.cfg["structs"]:
                        d[s["name"]] = [[None if v is None else crun.enc(None, v) for v in row] for row in self.db.execute("SELECT %s FROM %s ORDER BY _rowid_" % (", ".join(["_rowid_"] + [f["name"] for f in sqlref.cols(s)]), s["name"]))]
                    out.append(d); continue
                if t[0] == "begin": self.db.execute("BEGIN"); out.append("B%d" % crun.dec(t[2])); continue
                if t[0] in ("commit", "rollback"): self.db.execute(t[0]); out.append("ok"); continue
                if t[0] == "sql": self.db.executescript(crun.dec(t[1])); out.append("ok"); continue
                out.append(self.do(self.OPS[t[0]], t[1:]))
            except SystemExit: r.rc = 1; break
            except sqlite3.Error as e: r.rc = 79; r.errtext = "%s: %s" % (t[0], e); break
        r.out = "".join(json.dumps(x) + "\n" for x in out).encode(); r.err = b"driver: end 0" if r.rc == 0 else r.errtext.encode()
        self.db.close()
        return r
