"""Generated C programs in operation: a driver for the interface of a configuration, and a reference of its database."""
import os, json, sqlite3, random, struct, collections
import h, ortgen, model, sqlref, cgen
from ortgen import sdict, fdict
from h import Bad, Skip

INTS = ("bit", "bits", "date", "epoch", "int")
TEXTS = ("text", "email", "password")
RANGE = (-2**63, 2**63 - 1)

# ------------------------------------------------------------- operations
class Op:
    """A function of the interface."""
    def __init__(self, kind, s, name, x, cfg):
        self.kind = kind; self.s = s; self.name = name; self.x = x
        self.params = []            # (structure, field, pointer?, role) with role: val, mod, con
        if kind == "insert":
            for f in s["fields"]:
                if f["type"] != "struct" and not f["rowid"]: self.params.append((s, f, f["null"], ("val", f["name"])))
        elif kind in ("update", "delete"):
            F = fdict(s)
            if kind == "update":
                for fn, m in model.updmods(s, x): self.params.append((s, F[fn], F[fn]["null"], ("mod", fn, m)))
            for i, (fn, op) in enumerate(x["cons"]):
                if op not in cgen.UNARY: self.params.append((s, F[fn], False, ("con", i)))
        else:
            for i, (path, op) in enumerate(x["terms"]):
                if op in cgen.UNARY: continue
                ps, f = model.walk(cfg, s, path)[-1]
                self.params.append((ps, f, False, ("term", i)))
            self.ret = cgen.retstruct(cfg, s, x)

def ops(cfg):
    """All operations of a configuration by C name."""
    out = collections.OrderedDict()
    def add(o):
        if o.name in out: raise Skip("two operations of one name")
        out[o.name] = o
    for s in cfg["structs"]:
        if s["insert"]: add(Op("insert", s, "db_%s_insert" % s["name"], None, cfg))
        for q in s["queries"]: add(Op(q["type"], s, cgen.queryname(s, q), q, cfg))
        for u in s["updates"]: add(Op("update", s, cgen.updatename(s, u, True), u, cfg))
        for u in s["deletes"]: add(Op("delete", s, cgen.updatename(s, u, False), u, cfg))
    return out

def enc(f, v):
    if v is None: return "~"
    if isinstance(v, bool): raise TypeError
    if isinstance(v, int): return "i%d" % v
    if isinstance(v, float): return "r" + v.hex()
    if isinstance(v, bytes): return "b" + v.hex()
    return "s" + v.encode("utf-8", "surrogateescape").hex()

def dec(a):
    if a == "~": return None
    if a[0] == "i": return int(a[1:])
    if a[0] == "r": return float.fromhex(a[1:])
    if a[0] == "b": return bytes.fromhex(a[1:])
    if a[0] == "s": return bytes.fromhex(a[1:]).decode("utf-8", "surrogateescape")
    if a[0] == "@": return ("@",) + tuple(a[1:].split("."))
    raise ValueError(a)

# ----------------------------------------------------------------- driver
PRE = r'''
#include <sys/queue.h>
#include <errno.h>
#include <inttypes.h>
#include <stdio.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <sqlbox.h>
#include <kcgi.h>
#include <kcgijson.h>
#include <sqlite3.h>
#include "shim.h"
#include "db.h"
static char *tok[256]; static int ntok;
static int isnul(int i) { if (i >= ntok) { fprintf(stderr, "driver: arguments\n"); _Exit(77); } return tok[i][0] == '~'; }
static int64_t toi(int i) { isnul(i); return strtoll(tok[i] + 1, NULL, 10); }
static double tor(int i) { isnul(i); return strtod(tok[i] + 1, NULL); }
static void *keep[1024]; static size_t nkeep;
static int hexv(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
static void *tob(int i, size_t *sz)
{
	size_t n, j; unsigned char *b; char *h;
	isnul(i);
	if (tok[i][0] == '@') {
		/* text stored: @table.column.rowid */
		char q[512], *t, *c, *r; sqlite3_stmt *st; char *o = NULL;
		h = strdup(tok[i] + 1); t = strtok(h, "."); c = strtok(NULL, "."); r = strtok(NULL, ".");
		snprintf(q, sizeof(q), "SELECT %s FROM %s WHERE _rowid_ = %s", c, t, r);
		if (sqlite3_prepare_v2(shim_db, q, -1, &st, NULL) != SQLITE_OK) _Exit(78);
		if (sqlite3_step(st) == SQLITE_ROW && sqlite3_column_text(st, 0) != NULL) o = strdup((const char *)sqlite3_column_text(st, 0));
		sqlite3_finalize(st); free(h);
		if (o == NULL) o = strdup("");
		keep[nkeep++] = o; *sz = strlen(o);
		return o;
	}
	h = tok[i] + 1; n = strlen(h) / 2; b = malloc(n + 1);
	for (j = 0; j < n; j++) b[j] = hexv(h[2 * j]) * 16 + hexv(h[2 * j + 1]);
	b[n] = 0; *sz = n; keep[nkeep++] = b;
	return b;
}
static char *tos(int i) { size_t n; return tob(i, &n); }
static void outhex(int t, const void *p, size_t n)
{
	size_t i;
	if (p == NULL) { printf("\"NULL\""); return; }
	putchar('"'); putchar(t);
	for (i = 0; i < n; i++) printf("%02x", ((const unsigned char *)p)[i]);
	putchar('"');
}
static void outs(const char *s) { outhex('s', s, s == NULL ? 0 : strlen(s)); }
static void outi(int64_t v) { printf("\"i%" PRId64 "\"", v); }
static void outr(double v) { printf("\"r%a\"", v); }
static void dumptable(const char *t, const char *q)
{
	sqlite3_stmt *st; int i, n = 0, k;
	if (sqlite3_prepare_v2(shim_db, q, -1, &st, NULL) != SQLITE_OK) { fprintf(stderr, "driver: %s\n", sqlite3_errmsg(shim_db)); _Exit(79); }
	printf("\"%s\":[", t);
	while (sqlite3_step(st) == SQLITE_ROW) {
		if (n++) putchar(',');
		putchar('[');
		k = sqlite3_column_count(st);
		for (i = 0; i < k; i++) {
			if (i) putchar(',');
			switch (sqlite3_column_type(st, i)) {
			case SQLITE_INTEGER: outi(sqlite3_column_int64(st, i)); break;
			case SQLITE_FLOAT: outr(sqlite3_column_double(st, i)); break;
			case SQLITE_TEXT: outhex('s', sqlite3_column_text(st, i), sqlite3_column_bytes(st, i)); break;
			case SQLITE_BLOB: { static const char e[1]; int z = sqlite3_column_bytes(st, i); outhex('b', z ? sqlite3_column_blob(st, i) : e, z); break; }
			default: printf("null"); break;
			}
		}
		putchar(']');
	}
	sqlite3_finalize(st);
	putchar(']');
}
'''

def cstr(s): return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n") + '"'

def driver(cfg, OPS, schema, jsonout=False, extra_ops="", extra_fns="", file=None):
    o = [PRE]; S = sdict(cfg); roles = cfg["roles"] is not None
    rn = []
    if roles:
        rn = ["none", "default"] + ortgen.allroles(cfg)
        o.append("static const char *rolename(enum ort_role r) {\n\tswitch (r) {\n" + "".join('\tcase ROLE_%s: return "%s";\n' % (x, x) for x in rn) + '\tdefault: return "?";\n\t}\n}\n')
    for s in cfg["structs"]: o.append("static void dump_%s(const struct %s *p);\n" % (s["name"], s["name"]))
    for s in cfg["structs"]:
        n = s["name"]; F = fdict(s)
        o.append("static void dump_%s(const struct %s *p)\n{\n\tif (p == NULL) { printf(\"null\"); return; }\n\tputchar('{');\n" % (n, n))
        if roles: o.append('\tprintf("\\"_role\\":\\"%s\\",", p->priv_store == NULL ? "?" : rolename(db_role_stored(p->priv_store)));\n')
        for i, f in enumerate(s["fields"]):
            fn = f["name"]; t = f["type"]
            o.append('\tprintf("%s\\"%s\\":");\n' % ("," if i else "", fn))
            if t == "struct":
                k = "dump_%s(&p->%s);" % (F[f["src"]]["ref"][0], fn)
                if F[f["src"]]["null"]: k = 'if (p->has_%s) %s else printf("null");' % (fn, k)
            else:
                if t in INTS: k = "outi(ORT_GET_%s_%s(p));" % (n, fn)
                elif t == "enum": k = "outi((int64_t)p->%s);" % fn
                elif t == "real": k = "outr(p->%s);" % fn
                elif t == "blob": k = "outhex('b', p->%s, p->%s_sz);" % (fn, fn)
                else: k = "outs(p->%s);" % fn
                if f["null"]: k = 'if (p->has_%s) %s else printf("null");' % (fn, k)
            o.append("\t" + k + "\n")
        o.append("\tputchar('}');\n}\n")
        if jsonout == "rt": o.append("static void ex_%s(const struct %s *p, void *arg) { struct kjsonreq *r = arg; kjson_obj_open(r); json_%s_data(r, p); kjson_obj_close(r); }\n" % (n, n, n))
        o.append("static void it_%s(const struct %s *p, void *arg) { int *n = arg; if ((*n)++) putchar(','); dump_%s(p); }\n" % (n, n, n))
    o.append("static void dumpdb(void)\n{\n\tputchar('{');\n")
    for i, s in enumerate(cfg["structs"]):
        if i: o.append("\tputchar(',');\n")
        o.append("\tdumptable(%s, %s);\n" % (cstr(s["name"]), cstr("SELECT %s FROM %s ORDER BY _rowid_" % (", ".join(["_rowid_"] + [f["name"] for f in sqlref.cols(s)]), s["name"]))))
    o.append("\tputchar('}');\n}\n")
    o.append(extra_fns)
    # one function per operation
    for op in OPS.values():
        o.append("static void run_%s(struct ort *db, int js)\n{\n" % op.name); call = ["db"]
        for i, (ps, f, ptr, _) in enumerate(op.params):
            t = f["type"]; k = i + 1
            if t in INTS:
                o.append("\t__typeof__(((struct %s *)0)->%s) a%d, *p%d = NULL;\n\tmemset(&a%d, 0, sizeof(a%d));\n\tif (!isnul(%d)) { ORT_SETV_%s_%s(&a%d, toi(%d)); p%d = &a%d; }\n" % (ps["name"], f["name"], k, k, k, k, k, ps["name"], f["name"], k, k, k, k))
            elif t == "enum": o.append("\tenum %s a%d = 0, *p%d = NULL;\n\tif (!isnul(%d)) { a%d = (enum %s)toi(%d); p%d = &a%d; }\n" % (f["enum"], k, k, k, k, f["enum"], k, k, k))
            elif t == "real": o.append("\tdouble a%d = 0, *p%d = NULL;\n\tif (!isnul(%d)) { a%d = tor(%d); p%d = &a%d; }\n" % (k, k, k, k, k, k, k))
            elif t == "blob": o.append("\tsize_t z%d = 0; const void *a%d = NULL, **p%d = NULL;\n\tif (!isnul(%d)) { a%d = tob(%d, &z%d); p%d = &a%d; }\n" % (k, k, k, k, k, k, k, k, k))
            else: o.append("\tconst char *a%d = NULL, **p%d = NULL;\n\tif (!isnul(%d)) { a%d = tos(%d); p%d = &a%d; }\n" % (k, k, k, k, k, k, k))
            if t == "blob": call.append("z%d" % k)
            call.append(("p%d" if ptr else "a%d") % k)
            o.append("\t(void)p%d;\n" % k)
        a = ", ".join(call)
        if op.kind == "insert": o.append('\tprintf("\\"I%%" PRId64 "\\"", %s(%s));\n' % (op.name, a))
        elif op.kind == "update": o.append('\tprintf("\\"U%%d\\"", %s(%s));\n' % (op.name, a))
        elif op.kind == "delete": o.append('\t%s(%s);\n\tprintf("\\"D\\"");\n' % (op.name, a))
        elif op.kind == "count": o.append('\tprintf("\\"C%%" PRIu64 "\\"", %s(%s));\n' % (op.name, a))
        else:
            rs = op.ret["name"]
            if jsonout:
                if jsonout == "rt":
                    # export into memory, then import
                    o.append("\tif (js == 3) {\n\t\tstruct kjsonreq r; char *mb = NULL; size_t mz = 0; FILE *m = open_memstream(&mb, &mz); void *av[1] = { &r };\n\t\tkjson_open(&r, m); kjson_array_open(&r);\n")
                    if op.kind == "search": o.append("\t\tstruct %s *p = %s(%s); if (p != NULL) ex_%s(p, &r); db_%s_free(p);\n" % (rs, op.name, a, rs, rs))
                    elif op.kind == "list": o.append("\t\tstruct %s *p; struct %s_q *q = %s(%s); TAILQ_FOREACH(p, q, _entries) ex_%s(p, &r); db_%s_freeq(q);\n" % (rs, rs, op.name, a, rs, rs))
                    else: o.append("\t\t%s(%s);\n" % (op.name, ", ".join(["db", "ex_%s" % rs, "&r"] + call[1:])))
                    o.append("\t\tkjson_array_close(&r); kjson_close(&r); fclose(m); imp_%s(mb, mz, 1, -1); free(mb); return;\n\t}\n" % rs)
                o.append("\tif (js) {\n\t\tstruct kjsonreq r;\n\t\tkjson_open(&r, stdout);\n")
                if op.kind == "search": o.append("\t\tstruct %s *p = %s(%s);\n\t\tif (p == NULL) printf(\"null\");\n\t\telse { kjson_obj_open(&r); if (js == 1) json_%s_obj(&r, p); else json_%s_data(&r, p); kjson_obj_close(&r); }\n\t\tdb_%s_free(p);\n" % (rs, op.name, a, rs, rs, rs))
                elif op.kind == "list": o.append("\t\tstruct %s_q *q = %s(%s);\n\t\tkjson_obj_open(&r); json_%s_array(&r, q); kjson_obj_close(&r);\n\t\tdb_%s_freeq(q);\n" % (rs, op.name, a, rs, rs))
                else: o.append("\t\tkjson_array_open(&r); %s(%s); kjson_array_close(&r);\n" % (op.name, ", ".join(["db", "json_%s_iterate" % rs, "&r"] + call[1:])))
                o.append("\t\tkjson_close(&r);\n\t\treturn;\n\t}\n")
            if op.kind == "search": o.append('\tstruct %s *p = %s(%s);\n\tprintf("["); if (p != NULL) dump_%s(p); printf("]");\n\tdb_%s_free(p);\n' % (rs, op.name, a, rs, rs))
            elif op.kind == "list": o.append('\tint n = 0; struct %s *p; struct %s_q *q = %s(%s);\n\tprintf("["); TAILQ_FOREACH(p, q, _entries) it_%s(p, &n); printf("]");\n\tdb_%s_freeq(q);\n' % (rs, rs, op.name, a, rs, rs))
            else: o.append('\tint n = 0;\n\tprintf("["); %s(%s); printf("]");\n' % (op.name, ", ".join(["db", "it_%s" % rs, "&n"] + call[1:])))
        o.append("}\n")
    o.append("int main(int argc, char *argv[])\n{\n\tstatic char line[1 << 20]; struct ort *db; int js; char *l;\n")
    o.append("\tshim_schema = %s;\n" % ("\n\t".join(cstr(x + "\n") for x in schema.splitlines()) or '""'))
    o.append("\tif ((db = db_open(argc > 1 ? argv[1] : \":memory:\")) == NULL) return 76;\n")
    o.append("\twhile (fgets(line, sizeof(line), stdin) != NULL) {\n\t\tfor (ntok = 0, l = strtok(line, \" \\n\"); l != NULL && ntok < 255; l = strtok(NULL, \" \\n\")) tok[ntok++] = l;\n\t\tif (ntok == 0) continue;\n"
             "\t\tjs = 0; l = tok[0]; if (*l == '+') { l++; js = 1; } else if (*l == '=') { l++; js = 2; } else if (*l == '*') { l++; js = 3; }\n")
    o.append('\t\tif (!strcmp(l, "dump")) { dumpdb(); putchar(\'\\n\'); fflush(stdout); continue; }\n')
    o.append('\t\tif (!strcmp(l, "begin")) { db_trans_open(db, toi(1), toi(2)); printf("\\"B%d\\"\\n", shim_lastmode); fflush(stdout); continue; }\n')
    o.append('\t\tif (!strcmp(l, "commit")) { db_trans_commit(db, toi(1)); printf("\\"ok\\"\\n"); fflush(stdout); continue; }\n')
    o.append('\t\tif (!strcmp(l, "rollback")) { db_trans_rollback(db, toi(1)); printf("\\"ok\\"\\n"); fflush(stdout); continue; }\n')
    o.append('\t\tif (!strcmp(l, "sql")) { if (sqlite3_exec(shim_db, tos(1), NULL, NULL, NULL) != SQLITE_OK) { fprintf(stderr, "driver: %s\\n", sqlite3_errmsg(shim_db)); _Exit(74); } printf("\\"ok\\"\\n"); fflush(stdout); continue; }\n')
    if roles:
        o.append('\t\tif (!strcmp(l, "role")) {\n')
        for x in rn: o.append('\t\t\tif (!strcmp(tok[1], "%s")) db_role(db, ROLE_%s);\n' % (x, x))
        o.append('\t\t\tprintf("\\"%s\\"\\n", rolename(db_role_current(db))); fflush(stdout); continue;\n\t\t}\n')
    o.append(extra_ops)
    for op in OPS.values(): o.append('\t\tif (!strcmp(l, "%s")) run_%s(db, js); else\n' % (op.name, op.name))
    o.append('\t\t{ fprintf(stderr, "driver: %s?\\n", l); _Exit(75); }\n\t\twhile (nkeep > 0) free(keep[--nkeep]);\n\t\tputchar(\'\\n\'); fflush(stdout);\n\t}\n\tdb_close(db);\n\tif (shim_db != NULL) sqlite3_close(shim_db);\n\tfprintf(stderr, "driver: end %u\\n", shim_errs);\n\treturn 0;\n}\n')
    return "".join(o)

def build(ctx, cfg, fpath, OPS, flags="", safe=False, asan=False, jsonout=False, **kw):
    """Generates, compiles and links; returns the program and the schema."""
    import cshimlib
    A = (["-" + flags] if flags else []); s = ["-s"] if safe else []
    schema = ctx.ok("ort-sql", fpath).text
    ctx.write("db.h", ctx.ok("ort-c-header", *A, *s, fpath).out)
    ctx.write("db.c", ctx.ok("ort-c-source", *A, "-S", ctx.dirs[ctx.check.FLAVOURS[0]], fpath).out)
    ctx.write("drv.c", driver(cfg, OPS, schema, jsonout, **kw))
    exe = os.path.join(ctx.scratch, "drv")
    sf = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=nonnull-attribute", "-fno-omit-frame-pointer", "-g"] if asan else []
    for n in ("db", "drv"):
        r = h.run(["gcc", "-std=gnu11", "-O0", "-w"] + sf + cgen.INC + ["-I" + ctx.scratch, "-c", "-o", os.path.join(ctx.scratch, n + ".o"), os.path.join(ctx.scratch, n + ".c")], cwd=ctx.scratch)
        if r.rc: raise Bad("the C %s does not compile" % ("source" if n == "db" else "interface is not usable: the program"), r.errtext[:3000])
    r = h.run(["gcc"] + sf + ["-o", exe] + [os.path.join(ctx.scratch, n + ".o") for n in ("db", "drv")] + [cshimlib.get(asan), "-lsqlite3", "-lm", "-lresolv"])
    if r.rc: raise Bad("the C program does not link", r.errtext[:3000])
    return exe, schema

def play(ctx, exe, lines, timeout=60):
    if not isinstance(exe, str): return exe.play(ctx, lines)
    return h.run([exe], "\n".join(lines) + "\n", cwd=ctx.scratch, timeout=timeout)

# -------------------------------------------------------------- reference
def like(pat, s):
    """SQLite's LIKE: ASCII letters of either case, no escape."""
    def lo(c): return chr(ord(c) + 32) if "A" <= c <= "Z" else c
    pat = [lo(c) for c in pat]; s = [lo(c) for c in s]
    cur = {0}
    for c in pat:
        if c == "%":
            if cur: cur = set(range(min(cur), len(s) + 1))
        elif c == "_": cur = {i + 1 for i in cur if i < len(s)}
        else: cur = {i + 1 for i in cur if i < len(s) and s[i] == c}
        if not cur: return False
    return len(s) in cur

def cmpop(op, a, b):
    """a is the stored value, b the argument."""
    if op == "isnull": return a is None
    if op == "notnull": return a is not None
    if a is None or b is None: return False
    if op in ("eq", "streq"): return a == b
    if op in ("neq", "strneq"): return a != b
    if op == "ge": return a >= b
    if op == "gt": return a > b
    if op == "le": return a <= b
    if op == "lt": return a < b
    if op == "like": return like(b, a)
    if op == "and": return (a & b) != 0
    if op == "or": return (a | b) != 0
    raise ValueError(op)

HP = "\x01"     # marks the stand-in of a password hash in the reference
def ishash(v): return isinstance(v, str) and v.startswith(HP)
def plain(v): return v[1:].split(":", 1)[1]

class Conflict(Exception): pass

class Ref:
    def __init__(self, cfg, order=None):
        self.cfg = cfg; self.S = sdict(cfg); self.nh = 0
        self.db = sqlite3.connect(":memory:", isolation_level=None)
        self.db.text_factory = lambda b: b.decode("utf-8", "surrogateescape")
        self.db.executescript(sqlref.ddl(cfg, order))
        self.db.execute("PRAGMA foreign_keys=ON")
        self.cache = {}
        refd = {(f["ref"][0], f["ref"][1]) for s in cfg["structs"] for f in s["fields"] if f["ref"]}
        self.keyed = {s["name"]: {x for u in sqlref.uniques(s) for x in u} | {f["name"] for f in s["fields"] if (s["name"], f["name"]) in refd} for s in cfg["structs"]}
        self.trans = None; self.role = "default"; self.last = None
    def hash(self, pw):
        self.nh += 1
        return "%s%d:%s" % (HP, self.nh, pw)
    def rows(self, sn):
        if sn not in self.cache:
            c = [f["name"] for f in sqlref.cols(self.S[sn])]
            self.cache[sn] = [dict(zip(["_id"] + c, r)) for r in self.db.execute("SELECT %s FROM %s ORDER BY _rowid_" % (", ".join(["_rowid_"] + c), sn)).fetchall()]
        return self.cache[sn]
    def dirty(self): self.cache = {}; self._ex = {}
    def bind(self, v): return v.encode("utf-8", "surrogateescape").decode("utf-8", "surrogateescape") if isinstance(v, str) else v
    def argval(self, a, f):
        v = dec(a)
        if isinstance(v, tuple):
            for r in self.rows(v[1]):
                if r["_id"] == int(v[3]): return r[v[2]] if r[v[2]] is not None else ""
            return ""
        return v
    def find(self, sn, col, v):
        for r in self.rows(sn):
            if r[col] == v: return r
    def expand(self, s, row):
        """The structure as returned: sub-structures filled; None if a joined row is missing."""
        F = fdict(s); out = {"_id": row["_id"], "_s": s["name"]}
        for f in s["fields"]:
            if f["type"] != "struct": out[f["name"]] = row[f["name"]]; continue
            src = F[f["src"]]; v = row[src["name"]]
            if v is None:
                if src["null"]: out[f["name"]] = None; continue
                return None
            t = self.find(src["ref"][0], src["ref"][1], v)
            e = self.expand(self.S[src["ref"][0]], t) if t is not None else None
            if e is None: return None
            out[f["name"]] = e
        return out
    @staticmethod
    def at(rec, path):
        for x in path:
            if rec is None: return None
            rec = rec[x]
        return rec
    # ---- data
    def insert(self, op, args):
        """New identifier, or None if a constraint is violated."""
        cols = []; vals = []
        for (s, f, ptr, (_, fn)), a in zip(op.params, args):
            v = self.argval(a, f)
            if f["type"] == "password" and v is not None: v = self.hash(v)
            cols.append(fn); vals.append(v)
        q = "INSERT INTO %s (%s) VALUES (%s)" % (op.s["name"], ",".join(cols), ",".join("?" * len(cols))) if cols else "INSERT INTO %s DEFAULT VALUES" % op.s["name"]
        try: c = self.db.execute(q, vals)
        except sqlite3.IntegrityError: return None
        self.dirty()
        return c.lastrowid
    def selected(self, op, args):
        con = {k[1]: (f, a) for (s, f, p, k), a in zip(op.params, args) if k[0] == "con"}
        out = []
        for r in self.rows(op.s["name"]):
            ok = True
            for i, (fn, o) in enumerate(op.x["cons"]):
                b = self.argval(con[i][1], con[i][0]) if i in con else None
                if not cmpop(o, r[fn], b): ok = False; break
            if ok: out.append(r)
        return out
    def newvals(self, op, args):
        """Per selected row the new values; Skip if the outcome is outside of what is specified."""
        sel = self.selected(op, args); F = fdict(op.s); out = []
        mods = [(k[1], k[2], self.argval(a, f), f) for (s, f, p, k), a in zip(op.params, args) if k[0] == "mod"]
        hs = {fn: self.hash(v) for fn, m, v, f in mods if f["type"] == "password" and m != "strset" and v is not None}
        for r in sel:
            new = {}
            for fn, m, v, f in mods:
                o = r[fn]
                if fn in hs: v = hs[fn]
                if m in ("set", "strset"): n = v
                elif m in ("inc", "dec"):
                    n = None if o is None or v is None else (o + v if m == "inc" else o - v)
                    if isinstance(n, int) and not RANGE[0] <= n <= RANGE[1]: raise Skip("overflow")
                    if n is not None and f["type"] == "enum" and n not in ortgen.enumvals(model.edict(self.cfg)[f["enum"]]).values(): raise Skip("enumeration")
                    if isinstance(n, float) and (n != n or n in (float("inf"), float("-inf"))): raise Skip("overflow")
                else:
                    if f["type"] == "blob": raise Skip("blob concatenation")
                    n = None if v is None or (o is None and not f["null"]) else (o or "") + v
                    if n is not None and len(n) > 200: raise Skip("long")
                if len(sel) > 1 and fn in self.keyed[op.s["name"]] and m not in ("set", "strset"): raise Skip("order of rows matters")
                new[fn] = n
            out.append((r["_id"], new))
        return out
    def update(self, op, args):
        """True if done, False if a constraint is violated."""
        nv = self.newvals(op, args)
        if not nv: return True
        fs = sorted(nv[0][1])
        self.db.execute("CREATE TEMP TABLE IF NOT EXISTS _m (a, b, v)"); self.db.execute("DELETE FROM _m")
        for rid, new in nv:
            for k in fs: self.db.execute("INSERT INTO _m VALUES (?,?,?)", (rid, k, new[k]))
        n = op.s["name"]
        q = "UPDATE %s SET %s WHERE _rowid_ IN (SELECT a FROM _m)" % (n, ", ".join("%s = (SELECT v FROM _m WHERE a = %s._rowid_ AND b = '%s')" % (k, n, k) for k in fs))
        try: self.db.execute(q)
        except sqlite3.IntegrityError: return False
        finally: self.dirty()
        return True
    def delete(self, op, args):
        sel = [r["_id"] for r in self.selected(op, args)]
        if not sel: return True
        try: self.db.execute("DELETE FROM %s WHERE _rowid_ IN (%s)" % (op.s["name"], ",".join(map(str, sel))))
        except sqlite3.IntegrityError: return False
        finally: self.dirty()
        return True
    def begin(self): self.db.execute("BEGIN"); self.trans = True
    def end(self, commit): self.db.execute("COMMIT" if commit else "ROLLBACK"); self.trans = None; self.dirty()
    # ---- queries
    def matched(self, op, args):
        """(record, passes the password terms) of all rows which satisfy the terms."""
        q = op.x; arg = {k[1]: (f, a) for (s, f, p, k), a in zip(op.params, args)}
        out = []
        for r in self.rows(op.s["name"]):
            rec = self.expand(op.s, r)
            if rec is None: continue
            ok = True; pw = True
            for i, (path, o) in enumerate(q["terms"]):
                v = self.at(rec, path)
                f = model.walk(self.cfg, op.s, path)[-1][1]
                b = self.argval(arg[i][1], arg[i][0]) if i in arg else None
                if f["type"] == "password" and o in ("eq", "neq"):
                    if v is None or b is None: pw = False
                    elif ishash(v):
                        if (plain(v) == b) != (o == "eq"): pw = False
                    elif o == "eq": pw = False       # not a hash: verifies nothing
                elif not cmpop(o, v, b): ok = False; break
            if ok: out.append((rec, pw))
        return out

def okey(rec, order):
    k = []
    for path, d in order:
        v = Ref.at(rec, path)
        k.append((v is not None, v) if v is not None else (False, 0))
    return k

class Desc:
    def __init__(self, v): self.v = v
    def __lt__(self, o): return o.v < self.v
    def __eq__(self, o): return o.v == self.v

def sortkey(k, order): return [Desc(x) if d == "desc" else x for x, (_, d) in zip(k, order)]

def same(ref, act, path=""):
    """Whether the returned structure equals the record."""
    if ref is None or act is None: return ref is None and act is None
    for k, v in ref.items():
        if k.startswith("_"): continue
        if k not in act: return False
        a = act[k]
        if isinstance(v, dict) or isinstance(a, dict):
            if not (isinstance(v, dict) or v is None) or not (isinstance(a, dict) or a is None) or not same(v, a): return False
        elif not samev(v, a): return False
    return True

def fnv(*parts):
    x = 1469598103934665603
    for i, p in enumerate(parts):
        if i: x = ((x ^ 255) * 1099511628211) & (2**64 - 1)
        for b in p.encode("utf-8", "surrogateescape"): x = ((x ^ b) * 1099511628211) & (2**64 - 1)
    return x

def verifies(hashed, pw):
    import re
    m = re.match(r"\$2b\$08\$(\d{6})\$([0-9a-f]{16})0{28}$", hashed)
    return bool(m) and "%016x" % fnv(m.group(1), pw) == m.group(2)

def samev(v, a):
    if v is None or a is None: return v is None and a is None
    if a == "NULL": return False
    a = dec(a)
    if ishash(v): return isinstance(a, str) and verifies(a, plain(v))
    return type(a) is type(v) and a == v

def show(rec):
    if isinstance(rec, dict): return {k: show(v) for k, v in rec.items() if not k.startswith("_")}
    return rec

def checkdump(ref, got, what, log):
    for s in ref.cfg["structs"]:
        c = [f["name"] for f in sqlref.cols(s)]
        exp = ref.rows(s["name"]); act = got[s["name"]]
        if len(exp) != len(act): raise Bad(what, "table %s: %d rows, not %d\n%s\nexpected %s" % (s["name"], len(act), len(exp), log(), [show(x) for x in exp]))
        for e, a in zip(exp, act):
            if dec(a[0]) != e["_id"] or not all(samev(e[k], x) for k, x in zip(c, a[1:])):
                raise Bad(what, "table %s: row %s\nexpected %r\ngot %r\n%s" % (s["name"], e["_id"], e, dict(zip(c, map(lambda x: x and dec(x), a[1:]))), log()))

def candidates(ref, op, args):
    """Possible row lists before ordering (several if the documentation leaves a choice)."""
    q = op.x; m = ref.matched(op, args)
    return m

def checkquery(ref, op, args, res, log):
    """Compares the result of a query with the reference; returns labels."""
    q = op.x; m = ref.matched(op, args); labels = [op.kind]
    haspw = any(model.walk(ref.cfg, op.s, p)[-1][1]["type"] == "password" and o in ("eq", "neq") for p, o in q["terms"])
    order = q["order"]; dist = q["distinct"]; lim = q["limit"] or None; off = q["offset"] or 0
    ties = False
    if q["group"]:
        labels.append("grouprow")
        g = {}
        for rec, pw in m: g.setdefault(ref.at(rec, q["group"]), []).append((rec, pw))
        pick = (max if q["aggr"][0] == "maxrow" else min)
        best = []
        for k, v in g.items():
            b = pick(ref.at(rec, q["aggr"][1]) for rec, pw in v)
            t = [(rec, pw) for rec, pw in v if ref.at(rec, q["aggr"][1]) == b]
            best.append(t); ties = ties or len(t) > 1
        groups = best
        m = [x for t in best for x in t]
        if ties: labels.append("tied groups")
    cand = m
    if dist and dist != ["."]: cand = [(ref.at(rec, dist), pw) for rec, pw in m]
    elif dist: pass
    if dist:
        labels.append("distinct"); seen = {}; c2 = []
        for rec, pw in cand:
            k = canon(ref, op.ret, rec)
            if k not in seen: seen[k] = 1; c2.append((rec, pw))
        if len(c2) < len(cand): labels.append("distinct removes")
        cand = c2
    n = len(groups) if q["group"] else len(cand)
    if op.kind == "count":
        exp = max(0, n - off) if lim is None else max(0, min(lim, n - off))
        if res != "C%d" % exp: raise Bad("count: wrong number", "%s returned %s, not %d\n%s" % (op.name, res, exp, log()))
        if 0 < exp < len(ref.rows(op.s["name"])): labels.append("selective")
        return labels
    # order usable on the returned structure?
    if dist and dist != ["."]:
        k = len(dist)
        if all(p[:k] == dist for p, d in order): order = [(p[k:], d) for p, d in order]
        else: order = None
    key = (lambda rec: sortkey(okey(rec, order), order)) if order is not None else (lambda rec: 0)
    # identify the returned rows
    pool = list(cand); got = []
    if op.kind == "search":
        if len(res) > 1: raise Bad("search: more than one row", log())
    for a in res:
        for i, (rec, pw) in enumerate(pool):
            if same(rec, a): got.append((rec, pw)); del pool[i]; break
        else:
            raise Bad("%s: returned row is not among those selected" % op.kind, "%s %s\nreturned %s\nselected %s\n%s" % (op.name, args, json.dumps(a), [show(r) for r, p in cand], log()))
    if any(not pw for rec, pw in got): raise Bad("%s: returned row does not satisfy the password terms" % op.kind, "%s %s\n%s" % (op.name, args, log()))
    def fail(why, exp): raise Bad("%s: %s" % (op.kind, why), "%s %s\nreturned %s\nexpected %s\n%s" % (op.name, args, [show(r) for r, p in got], exp, log()))
    if q["group"]:
        gv = [ref.at(r, q["group"]) for r, p in got]
        if len(set(map(repr, gv))) != len(gv): fail("two rows of one group", None)
    if ties or (haspw and (q["group"] or off > 0 or (lim is not None and op.kind != "search"))):
        # the choice of row within a group, or of what limit counts, is open
        cap = max(0, n - off) if lim is None else max(0, min(lim, n - off))
        if op.kind == "search": cap = min(cap, 1)
        if haspw:
            if len(got) > cap: fail("too many rows", cap)
        else:
            want = (1 if n > off else 0) if op.kind == "search" else cap
            if len(got) != want: fail("wrong number of rows", want)
        if op.kind != "search" and order is not None:
            ks = [key(r) for r, p in got]
            if any(b < a for a, b in zip(ks, ks[1:])): fail("not in order", None)
        return labels + (["several"] if len(got) > 1 else [])
    pas = [rec for rec, pw in cand if pw]
    pas.sort(key=key) if order else None
    if op.kind == "search":
        exp = pas[off:off + 1]
        if len(got) != len(exp): fail("wrong row or none", [show(r) for r in exp])
        if exp and order and key(exp[0]) != key(got[0][0]): fail("not the first row in order", [show(r) for r in exp])
    else:
        exp = pas[off:] if lim is None else pas[off:off + lim]
        if len(got) != len(exp): fail("wrong number of rows", [show(r) for r in exp])
        if order and [key(r) for r, p in got] != [key(r) for r in exp]: fail("wrong order", [show(r) for r in exp])
        if lim is None and not off and [1 for rec, pw in pool if pw]: fail("rows missing", None)
        if len(exp) < len(pas): labels.append("limited")
    if order and len(got) > 1: labels.append("ordered")
    if got: labels.append("found")
    if 0 < len(got) < len(ref.rows(op.s["name"])): labels.append("selective")
    if haspw: labels.append("password term")
    if any(len(p) > 1 for p, o in q["terms"]): labels.append("nested term")
    if any(len(p) > 1 for p, d in q["order"]): labels.append("nested order")
    return labels

def allowed(cfg, role, op):
    par = model.parents(cfg)
    return any(model.isa(par, role, x) for x in model.oproles(cfg, op.s, op.kind, op.x["name"] if op.x else None))

def entering(cfg, cur, new):
    """Whether a role may be entered from another."""
    if cur == new: return True
    if cur == "none": return False
    if cur == "default" or new == "none": return True
    return new not in ("default", "none", "all") and model.isa(model.parents(cfg), cur, new)

def refused(r): return r.rc == -6 or (r.rc is not None and 0 < r.rc < 74)

def storedroles(v):
    if isinstance(v, dict):
        if "_role" in v: yield v["_role"]
    elif isinstance(v, list):
        for x in v: yield from storedroles(x)

def seeds(r, cfg, order, n):
    """Rows put into the database directly."""
    ref = Ref(cfg, order); out = []
    ins = [Op("insert", s, "", None, cfg) for s in cfg["structs"]]
    def lit(v):
        if v is None: return "NULL"
        if isinstance(v, int): return str(v)
        if isinstance(v, float): return "%.17e" % v
        if isinstance(v, bytes): return "x'%s'" % v.hex()
        return "CAST(x'%s' AS TEXT)" % v.encode("utf-8", "surrogateescape").hex()
    for _ in range(n * 5):
        if len(out) >= n: break
        op = r.choice(ins); a = genargs(r, ref, op); c = []; v = []
        for (s, f, p, (_, fn)), x in zip(op.params, a):
            y = ref.argval(x, f); c.append(fn); v.append(lit(y if not isinstance(y, float) or abs(y) < 1e300 else 0.5))
        q = "INSERT INTO %s (%s) VALUES (%s)" % (op.s["name"], ", ".join(c), ", ".join(v)) if c else "INSERT INTO %s DEFAULT VALUES" % op.s["name"]
        try: ref.db.execute(q)
        except sqlite3.IntegrityError: continue
        ref.dirty(); out.append(["sql", "s" + q.encode("utf-8", "surrogateescape").hex()])
    return out, ref

def canon(ref, s, rec):
    """Identity of a row for distinct: the columns fetched by the statement."""
    F = fdict(s); out = []
    for f in s["fields"]:
        if f["type"] == "struct":
            if not F[f["src"]]["null"]: out.append(canon(ref, ref.S[F[f["src"]]["ref"][0]], rec[f["name"]]))
        else: out.append(repr(rec[f["name"]]))
    return tuple(out)

# -------------------------------------------------------------- histories
PWS = ["secret", "hunter2", "", "a", "pass word", "\u00e9t\u00e9"]
def genarg(r, ref, s, f, ptr, role):
    """An argument, in encoded form."""
    cfg = ref.cfg; t = f["type"]
    if ptr and r.random() < .3: return "~"
    if t == "password":
        m = role[2] if role[0] == "mod" else None
        if role[0] in ("term", "con"):
            rows = [x for x in ref.rows(s["name"]) if x[f["name"]] is not None]
            if rows and r.random() < .7:
                x = r.choice(rows); v = x[f["name"]]
                op = role[3]
                if op in ("streq", "strneq"):
                    if r.random() < .8: return "@%s.%s.%d" % (s["name"], f["name"], x["_id"])
                    return enc(f, plain(v)) if ishash(v) else enc(f, v)
                return enc(f, plain(v) if ishash(v) else v)
        return enc(f, r.choice(PWS))
    if role[0] == "mod" and role[2] in ("inc", "dec"):
        if t == "real": return enc(f, r.choice([0.0, 1.0, -1.5, 0.25]))
        if t == "enum": return enc(f, sqlref.value(r, cfg, f))
        return enc(f, r.choice([0, 1, 1, 2, -1, 5]))
    if f["ref"] and r.random() < .8:
        rows = ref.rows(f["ref"][0])
        if rows: 
            v = r.choice(rows)[f["ref"][1]]
            if v is not None: return enc(f, v)
    if role[0] in ("term", "con") and r.random() < .75:
        rows = [x[f["name"]] for x in ref.rows(s["name"]) if x[f["name"]] is not None]
        if rows:
            v = r.choice(rows)
            if t in ("text", "email") and role[3] == "like" and v:
                k = r.random(); i = r.randrange(len(v)); j = r.randint(i, len(v))
                if k < .3: v = v[:i] + "%"
                elif k < .5: v = "%" + v[i:]
                elif k < .7: v = v[:i] + "_" + v[i + 1:]
                elif k < .9: v = "%" + v[i:j].swapcase() + "%"
            return enc(f, v)
    v = sqlref.value(r, cfg, f)
    if t in ("text", "email") and r.random() < .3: v = r.choice(["aB", "%", "_", "a%", "z" * 20, "\U0001f600", "a b", "'", "\"", "\\", "\x7f", "12", "NULL"])
    return enc(f, v)

def roletag(op, role):
    """The role of a parameter with its operator appended."""
    if role[0] == "term": return role + (None, op.x["terms"][role[1]][1]) if False else (role[0], role[1], None, op.x["terms"][role[1]][1])
    if role[0] == "con": return (role[0], role[1], None, op.x["cons"][role[1]][1])
    return role

def genargs(r, ref, op): return [genarg(r, ref, s, f, ptr, roletag(op, role)) for s, f, ptr, role in op.params]

def apply(ref, op, args):
    """Changes the reference; the expected output, or None with the program expected to stop."""
    if op.kind == "insert":
        i = ref.insert(op, args); return "I%d" % (-1 if i is None else i)
    if op.kind == "update": return "U%d" % (1 if ref.update(op, args) else 0)
    if op.kind == "delete": return "D" if ref.delete(op, args) else None

def history(r, cfg, OPS, order, n, weights=None, maxrows=14):
    """A list of [function, arguments...]."""
    ref = Ref(cfg, order); out = []; W = {"insert": 4, "update": 3, "delete": 1, "search": 2, "list": 2, "iterate": 2, "count": 2}
    W.update(weights or {})
    names = list(OPS); ins = [x for x in names if OPS[x].kind == "insert"]
    if not ins: return None
    intr = False
    for k in range(n):
        if r.random() < .06:
            if intr: c = r.random() < .5; out.append(["commit" if c else "rollback", "i7"]); ref.end(c); intr = False; continue
            out.append(["begin", "i7", "i%d" % r.choice([-1, 0, 1])]); ref.begin(); intr = True; continue
        x = r.choice(ins) if k < n // 4 else r.choices(names, [W[OPS[y].kind] for y in names])[0]
        op = OPS[x]
        if op.kind == "insert" and len(ref.rows(op.s["name"])) >= maxrows: continue
        for _ in range(4 if op.kind == "insert" else 1):
            args = genargs(r, ref, op)
            if op.kind == "insert":
                # prefer what the constraints admit
                ref.db.execute("SAVEPOINT p"); nh = ref.nh; good = ref.insert(op, args) is not None
                ref.db.execute("ROLLBACK TO p"); ref.db.execute("RELEASE p"); ref.dirty(); ref.nh = nh
                if good or r.random() < .2: break
        try:
            if op.kind in ("insert", "update", "delete"):
                if op.kind == "delete" and len(ref.selected(op, args)) > 1 and risky(cfg, op.s["name"]): continue
                e = apply(ref, op, args)
                out.append([x] + args)
                if e is None: break
            else: out.append([x] + args)
        except Skip: continue
    return out

def risky(cfg, sn):
    """Whether a deletion of several rows might depend on their order."""
    return any(f["ref"] and f["actdel"] in ("restrict",) for s in cfg["structs"] for f in s["fields"])

def tableorder(schema):
    import re
    return re.findall(r"^CREATE TABLE (\w+)", schema, re.M)

def strict(x):
    def nodup(pairs):
        d = dict(pairs)
        if len(d) != len(pairs): raise ValueError("duplicate key")
        return d
    def nonum(c): raise ValueError("not a number: " + c)
    return json.loads(x.decode("utf-8"), object_pairs_hook=nodup, parse_constant=nonum)

class Log:
    def __init__(self): self.l = []
    def __call__(self): return "\n".join(self.l[-60:])

def replay(ctx, exe, cfg, OPS, order, hist, json_cb=None, dumps=True):
    """Plays a history in the program and in the reference; returns labels."""
    ref = Ref(cfg, order); labels = []; log = Log()
    lines = []
    for h_ in hist:
        nm = h_[0].lstrip("+=*")
        if nm in ("begin", "commit", "rollback", "role", "dump", "sql"): lines.append(" ".join(h_)); continue
        op = OPS.get(nm)
        if op is None or len(op.params) != len(h_) - 1: raise Skip("history does not fit")
        lines.append(" ".join(h_))
        if dumps and op.kind in ("insert", "update", "delete"): lines.append("dump")
    r = play(ctx, exe, lines + ["dump"])
    if r.timeout: raise Bad("the program does not terminate", "\n".join(lines))
    out = r.out.split(b"\n"); pos = 0; ended = False; bad = []
    def nxt(what):
        nonlocal pos
        if pos >= len(out) - 1 and not (pos == len(out) - 1 and out[pos]): return None
        x = out[pos]; pos += 1
        try: return strict(x)
        except ValueError as e: bad.append((x, e)); return None
    intr = False
    for h_ in hist:
        nm = h_[0].lstrip("+=*"); args = h_[1:]
        if nm == "role":
            log.l.append(" ".join(h_)); g = nxt(nm)
            if entering(cfg, ref.role, args[0]):
                if g != args[0]: raise Bad("role: a permitted change of role is refused", "%s to %s: %s, status %s %s\n%s" % (ref.role, args[0], g, r.rc, r.errtext[-1000:], log()))
                labels.append("role entered" if ref.role != args[0] else "same role"); ref.role = args[0]; continue
            if g is not None or not refused(r): raise Bad("role: a change of role is not refused", "%s to %s: %s, status %s\n%s" % (ref.role, args[0], g, r.rc, log()))
            labels.append("role refused"); ended = True; break
        log.l.append(" ".join([h_[0]] + [repr(dec(a)) if a[0] != "@" else a for a in args]))
        if nm == "sql":
            if nxt(nm) != "ok": raise Skip("seeding: " + r.errtext)
            ref.db.execute(dec(args[0])); ref.dirty(); continue
        if nm in ("begin", "commit", "rollback"):
            g = nxt(nm)
            if (nm == "begin") == intr: raise Skip("history does not fit")
            if nm == "begin":
                if g != "B%d" % dec(args[1]): raise Bad("transaction: wrong mode", "%s\n%s" % (g, log()))
                ref.begin(); intr = True
            else:
                if g != "ok": raise Bad("transaction: the program stopped", "%s\n%s\n%s" % (r.rc, r.errtext[-2000:], log()))
                ref.end(nm == "commit"); intr = False
            labels.append(nm); continue
        op = OPS[nm]
        if cfg["roles"] is not None:
            if not allowed(cfg, ref.role, op):
                g = nxt(nm)
                if g is not None or not refused(r): raise Bad("role: an operation is not denied", "%s in role %s: %s, status %s\n%s" % (op.name, ref.role, g, r.rc, log()))
                labels += ["denied", "denied " + op.kind]; ended = True; break
            labels.append("permitted")
        if op.kind in ("insert", "update", "delete"):
            e = apply(ref, op, args)
            g = nxt(nm)
            if e is None:
                if g is not None or r.rc != 1: raise Bad("delete: a violated constraint is not reported", "%s: %s status %s\n%s\n%s" % (op.name, g, r.rc, r.errtext[-2000:], log()))
                labels.append("delete stopped"); ended = True; break
            if g is None: raise Bad("%s: the program stopped" % op.kind, "%s %s: status %s\n%s\n%s" % (op.name, args, r.rc, r.errtext[-3000:], log()))
            log.l[-1] += "   -> %s" % g
            if g != e: raise Bad("%s: wrong result" % op.kind, "%s returned %s, not %s\n%s" % (op.name, g, e, log()))
            if dumps:
                d = nxt("dump")
                if d is None: raise Bad("%s: the program stopped" % op.kind, r.errtext[-2000:])
                checkdump(ref, d, "%s: stored rows" % op.kind, log)
            labels.append(op.kind + (" refused" if e in ("I-1", "U0") else ""))
        else:
            g = nxt(nm)
            if g is None and bad: raise Bad("output is not JSON", "%s: %s\n%s" % (bad[0][1], bad[0][0].decode("utf-8", "replace"), log()))
            if g is None and pos > len(out) - 2 and r.rc: raise Bad("%s: the program stopped" % op.kind, "%s %s: status %s\n%s\n%s" % (op.name, args, r.rc, r.errtext[-3000:], log()))
            if cfg["roles"] is not None and h_[0][0] not in "+=*" and op.kind != "count":
                for x in storedroles(g):
                    if x != ref.role: raise Bad("role: wrong role stored with a row", "%s, not %s\n%s" % (x, ref.role, log()))
            if h_[0][0] in "+=*": labels += json_cb(ref, op, args, g, h_[0][0], log)
            else: labels += checkquery(ref, op, args, g, log); ref.last = (op.name, args, g)
    if not ended:
        d = nxt("dump")
        if d is None: raise Bad("the program stopped", r.errtext[-2000:])
        checkdump(ref, d, "stored rows", log)
        if r.rc != 0: raise Bad("the program failed at its end", "status %s\n%s\n%s" % (r.rc, r.errtext[-3000:], log()))
        if b"driver: end 0" not in r.err: raise Bad("the database interface was misused", "%s\n%s" % (r.errtext[-2000:], log()))
    return labels
