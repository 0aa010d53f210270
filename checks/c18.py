import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from c13 import *
import c17, model, base64, re, sqlref
from ortgen import fdict, sdict

def imports(cfg):
    """Functions of the driver which import, and their dispatch."""
    f = []; o = []
    for s in cfg["structs"]:
        n = s["name"]
        f.append(r'''
static void imp_%s(const char *in, size_t sz, int arr, long k)
{
	jsmn_parser jp; jsmntok_t *t, *u; int a, b = 0, rc = 0, x = 0; size_t i, n = 0; char *buf;
	struct %s v, *vp = NULL;
	buf = malloc(sz); memcpy(buf, in, sz);
	jsmn_init(&jp);
	a = jsmn_parse(&jp, buf, sz, NULL, 0);
	t = malloc((a > 0 ? a : 0) * sizeof(*t)); if (a > 0) memset(t, 0xa5, a * sizeof(*t));
	if (a >= 0) { jsmn_init(&jp); b = jsmn_parse(&jp, buf, sz, t, a); }
	printf("{\"a\":%%d,\"b\":%%d", a, b);
	if (a >= 0 && b >= 0) {
		if (k >= 0 && k < b) { u = malloc(k * sizeof(*u)); memcpy(u, t, k * sizeof(*u)); free(t); t = u; b = k; }
		if (arr) {
			rc = jsmn_%s_array(&vp, &n, buf, t, b);
			if (rc > 0) { printf(",\"v\":["); for (i = 0; i < n; i++) it_%s(&vp[i], &x); printf("]"); }
			jsmn_%s_free_array(vp, n);
		} else {
			memset(&v, 0, sizeof(v));
			rc = jsmn_%s(&v, buf, t, b);
			if (rc > 0) { printf(",\"v\":"); dump_%s(&v); }
			jsmn_%s_clear(&v);
		}
	}
	printf(",\"rc\":%%d}", rc);
	free(t); free(buf);
}
''' % ((n,) * 8))
        o.append('\t\tif (!strcmp(l, "imp") && !strcmp(tok[1], "%s")) { size_t z; char *b = tob(4, &z); imp_%s(b, z, toi(2), toi(3)); putchar(\'\\n\'); fflush(stdout); while (nkeep > 0) free(keep[--nkeep]); continue; }\n' % (n, n))
    return "".join(f), "".join(o)

def esc(r, s):
    o = ['"']
    for c in s:
        k = r.random(); i = ord(c)
        if c in '"\\': o.append("\\" + c if k < .8 else "\\u%04x" % i)
        elif c == "/": o.append("\\/" if k < .6 else "/")
        elif c in "\b\f\n\r\t": o.append({"\b": "\\b", "\f": "\\f", "\n": "\\n", "\r": "\\r", "\t": "\\t"}[c] if k < .7 else "\\u%04X" % i)
        elif i < 32 or k < .08:
            if i > 0xffff: i -= 0x10000; o.append("\\u%04x\\u%04X" % (0xd800 + (i >> 10), 0xdc00 + (i & 1023)))
            else: o.append("\\u%04x" % i)
        else: o.append(c)
    return "".join(o) + '"'

def sp(r): return r.choice(["", "", "", "", " ", "\n", "\t", "  "])

def text(r):
    return "".join(r.choice(["a", "b", '"', "\\", "/", "\n", "\t", "\u00e9", "\u20ac", "\U0001f600", "\x01", "\x7f", "{", "}", ":", ",", "u0041", "\\n", " "]) for _ in range(r.choice([0, 1, 2, 3, 6, 12])))

def jvalue(r, cfg, s, f, depth):
    """Text of a value for the field, or of one of another type; (text, good)."""
    t = f["type"]; F = fdict(s)
    null = F[f["src"]]["null"] if t == "struct" else f["null"]
    if null and r.random() < .25: return "null"
    if t == "struct": return jobj(r, cfg, model.target(cfg, s, f), depth + 1)
    if t in crun.INTS or t == "enum":
        v = sqlref.value(r, cfg, f)
        return str(v) if r.random() < .5 else '"%d"' % v
    if t == "real":
        v = r.choice([sqlref.value(r, cfg, f), r.uniform(-1e6, 1e6)])
        return repr(v) if r.random() < .8 else '"%r"' % v
    if t == "blob": return esc(r, base64.b64encode(bytes(r.randrange(256) for _ in range(r.choice([0, 1, 2, 3, 4, 7, 30])))).decode())
    return esc(r, text(r))

def jobj(r, cfg, s, depth=0):
    ks = [f for f in s["fields"] if not f["noexport"] and (f["type"] != "password" or r.random() < .15) and r.random() < .92]
    r.shuffle(ks)
    return "{" + ",".join(sp(r) + '"%s"' % f["name"] + sp(r) + ":" + sp(r) + jvalue(r, cfg, s, f, depth) + sp(r) for f in ks) + ("" if ks else sp(r)) + "}"

WRONG = ["null", "true", "false", "[]", "{}", '""', '"x"', "1.5", '"1.5"', "-", '"-"', "12x", '"12x"', '"9223372036854775808"', "99999999999999999999", "[1]", '{"a":1}', '"!!"', '"YQ"', "nul", "1e3", '"\\u0000"', "-5", '"0x10"', '"\\ud800"', '"A==="', "123456789012345678901234567890123456789012345"]

class Num(str): pass
def load(b):
    def pairs(p):
        d = dict(p)
        if len(d) != len(p): raise ValueError
        return d
    def const(x): raise ValueError
    return json.loads(b.decode("utf-8"), parse_int=Num, parse_float=Num, parse_constant=const, object_pairs_hook=pairs)

REJ = "reject"; OPEN = "open"
def vclass(cfg, s, f, j):
    """REJ, OPEN, or (value,)"""
    t = f["type"]; F = fdict(s)
    null = F[f["src"]]["null"] if t == "struct" else f["null"]
    if j is None: return (None,) if null else REJ
    if isinstance(j, (bool, list)): return REJ
    if t == "struct": return oclass(cfg, model.target(cfg, s, f), j) if isinstance(j, dict) else REJ
    if isinstance(j, dict): return REJ
    if t in crun.INTS or t == "enum":
        if re.fullmatch(r"-?(0|[1-9]\d*)", j) and j != "-0":
            v = int(j)
            if not -2**63 <= v < 2**63: return REJ
            if t == "enum" and v not in ortgen.enumvals(model.edict(cfg)[f["enum"]]).values(): return OPEN
            if t == "bit" and v < 0: return OPEN
            return (v,)
        if re.fullmatch(r"[-+]?\d+([eE].*)?|0[xX].*|\s*[-+]?\d*", j) and j not in ("", "-"): return OPEN
        return REJ
    if t == "real":
        if re.fullmatch(r"-?\d{1,40}(\.\d{1,40})?([eE][-+]?\d{1,2})?", j): return (float(j),)
        if re.fullmatch(r"[-+]?(0[xX].*|\d.*e.*|inf.*|nan.*|\d+\.?\d*|\.\d+)|\s.*", j, re.I | re.S): return OPEN
        return REJ
    if isinstance(j, Num): return REJ
    try: j.encode("utf-8")
    except UnicodeEncodeError: return OPEN
    if "\0" in j: return OPEN
    if t == "blob":
        if not re.fullmatch(r"[A-Za-z0-9+/=\s]*", j): return REJ
        try: b = base64.b64decode(j, validate=True)
        except Exception: return OPEN
        return (b,) if base64.b64encode(b).decode() == j else OPEN
    return (j,)

def oclass(cfg, s, j):
    F = fdict(s); out = {}; op = False
    for k, v in j.items():
        f = F.get(k)
        if f is None: return REJ
        c = vclass(cfg, s, f, v)
        if f["noexport"]: op = True; continue       # may be refused
        if c is REJ: return REJ
        if c is OPEN: op = True
        else: out[k] = c[0]
    return OPEN if op else (out,)

def matches(cfg, s, want, got, where):
    for k, v in want.items():
        f = fdict(s)[k]; g = got[k]
        if v is None or g is None:
            if v is not None or g is not None: raise Bad("import: null", "%s.%s: %r, not %r" % (where, k, g, v))
        elif isinstance(v, dict): matches(cfg, model.target(cfg, s, f), v, g, where + "." + k)
        else:
            if g == "NULL" or crun.dec(g) != v or type(crun.dec(g)) is not type(v): raise Bad("import: wrong value", "%s.%s: %r, not %r" % (where, k, crun.dec(g) if g != "NULL" else g, v))

class D(c17.D):
    ID = "C18"
    RULE = ("generated configurations (as C with the sanitizers, compiled with a program that imports): rows exported by the program itself, generated documents with random presentation, documents with a value of another type, unknown members, truncations, byte mutations, and token arrays cut short; "
            "accepted exactly when a reference reader says so (where it is decided), values as in the document, no sanitizer report and no leak; non-trivial: accepted documents with values compared and refused ones")
    N = {"quick": 250, "thorough": 12000}
    NH = 2; ND = 60
    def gen(self, r, i):
        case = super().gen(r, i); cfg = case["cfg"]; case["asan"] = True; case["docs"] = []
        for h_ in case["hists"]:
            for x in h_:
                if x[0][0] == "+": x[0] = "*" + x[0][1:]
            h_[:] = [x for x in h_ if x[0][0] != "="]
        for k in range(self.ND):
            s = r.choice(cfg["structs"]); arr = r.random() < .3; kind = r.choice(["valid", "valid", "wrong", "wrong", "trunc", "cut", "bytes", "tokens", "unknown"])
            if kind == "wrong":
                j = self.wrongobj(r, cfg, s)
            elif kind == "unknown":
                j = jobj(r, cfg, s); n = r.choice([f["name"] for f in s["fields"]])
                key = r.choice(["nosuchmember", n + "x", n[:-1], n.upper(), "", "%s" % n])
                j = j[:-1] + ("," if j.strip("{} \t\n") else "") + '"%s":%s}' % (key, r.choice(["1", '"x"', "null", "{}", "[]"]))
            else: j = jobj(r, cfg, s)
            if arr: j = "[" + ",".join([j] + [jobj(r, cfg, s) for _ in range(r.choice([0, 1, 2]))] if kind != "valid" or r.random() < .9 else []) + "]"
            b = j.encode("utf-8"); cut = -1
            if kind == "trunc": b = b[:r.randrange(len(b))]
            if kind == "cut": cut = r.randrange(0, 12)
            if kind == "bytes":
                for _ in range(r.choice([1, 1, 2, 4])):
                    p = r.randrange(len(b) + 1); q = min(len(b), p + r.choice([0, 1, 1, 2, 8]))
                    b = b[:p] + r.choice([b"", b"", b"{", b"}", b":", b",", b"\"", b"[", b"]", b"null", b"1", b"\\", b"\xff", b"\0", b"\\u12", b" "]) + b[q:]
            if kind == "tokens":
                T = re.findall(rb'"(?:[^"\\]|\\.)*"|[{}\[\]:,]|[^\s{}\[\]:,"]+', b)
                for _ in range(r.choice([1, 1, 2])):
                    if not T: break
                    p = r.randrange(len(T)); k2 = r.random()
                    if k2 < .4: del T[p]
                    elif k2 < .7: T.insert(p, r.choice(T))
                    else: T[p] = r.choice(T)
                b = b" ".join(T)
            if not b: b = b" "
            case["docs"].append([kind, s["name"], int(arr), cut, b.hex()])
        return case
    def wrongobj(self, r, cfg, s):
        ks = [f for f in s["fields"] if not f["noexport"]]
        if not ks: return jobj(r, cfg, s)
        w = r.choice(ks); out = []
        if w["type"] == "struct" and r.random() < .5:
            v = self.wrongobj(r, cfg, model.target(cfg, s, w))
        else: v = r.choice(WRONG)
        for f in ks:
            if f is w: out.append('"%s":%s' % (f["name"], v))
            elif r.random() < .7: out.append('"%s":%s' % (f["name"], jvalue(r, cfg, s, f, 0)))
        r.shuffle(out)
        return "{" + ",".join(out) + "}"
    def reductions(self, case):
        D = case["docs"]; H = case["hists"]
        if D and H: yield dict(case, docs=[]); yield dict(case, hists=[])
        if len(D) > 1:
            n = len(D)
            for k in (n // 2, n // 4, 4, 1):
                if k < 1: continue
                for i in range(0, n, k): yield dict(case, docs=D[i:i + k])
        elif len(D) == 1 and not H: 
            x = D[0]; b = bytes.fromhex(x[4])
            T = re.findall(rb'"(?:[^"\\]|\\.)*"|[{}\[\]:,]|[^\s{}\[\]:,"]+', b)
            if x[0] not in ("trunc", "cut"):
                for i in range(len(T)):
                    for k in (1, 2, 4): yield dict(case, docs=[x[:4] + [b" ".join(T[:i] + T[i + k:]).hex()]])
        for c in Check.reductions(self, case): yield c
        if len(H) > 1:
            for x in H: yield dict(case, hists=[x])
        elif H:
            x = H[0]; n = len(x)
            for k in (n // 2, 4, 2, 1):
                if k < 1: continue
                for i in range(0, n, k): yield dict(case, hists=[x[:i] + x[i + k:]])
    def run(self, ctx, case):
        cfg = case["cfg"]; OPS = crun.ops(cfg); f = ctx.cfg(cfg)
        if ctx.tool("ort", f).rc: raise Skip("refused")
        S = sdict(cfg)
        if any(d[1] not in S for d in case["docs"]): raise Skip("structure gone")
        fns, disp = imports(cfg)
        exe, schema = crun.build(ctx, cfg, f, OPS, flags="jJ", safe=case["safe"], asan=True, jsonout="rt", extra_fns=fns, extra_ops=disp)
        order = crun.tableorder(schema); labels = []
        def cb(ref, op, args, g, kind, log):
            last = ref.last
            if last[0] != op.name or last[1] != args: raise Skip("history does not fit")
            dump = last[2]
            if g["rc"] <= 0 or g["rc"] != g["b"]: raise Bad("import: an exported document is refused", "%s\n%s\n%s" % (g, json.dumps(dump), log()))
            if len(g["v"]) != len(dump): raise Bad("import: number of objects", "%d, not %d\n%s" % (len(g["v"]), len(dump), log()))
            for d, v in zip(dump, g["v"]): self.same(cfg, ref.role, op.ret, d, v, op.ret["name"], log)
            return ["own export"] if dump else []
        for hi in case["hists"]: labels += crun.replay(ctx, exe, cfg, OPS, order, hi, json_cb=cb, dumps=False)
        if not case["docs"]: return labels
        lines = ["imp %s i%d i%d b%s" % (n, arr, cut, b) for kind, n, arr, cut, b in case["docs"]]
        r = crun.play(ctx, exe, lines)
        if r.timeout: raise Bad("the program does not terminate", "\n".join(lines))
        out = r.out.split(b"\n")
        for i, (kind, n, arr, cut, hx) in enumerate(case["docs"]):
            b = bytes.fromhex(hx); s = S[n]
            say = lambda g: "jsmn_%s%s of %r\n%s" % (n, "_array" if arr else "", b, json.dumps(g)[:3000])
            if i >= len(out) or not out[i]: raise Bad("import: the program stopped", "%s: %s\n%s" % (r.rc, say(None), r.errtext[-3000:]))
            try: g = json.loads(out[i])
            except ValueError: raise Bad("import: the program stopped", "%s: %s\n%s" % (r.rc, say(None), r.errtext[-3000:]))
            acc = g["a"] >= 0 and g["b"] >= 0 and g["rc"] > 0
            if kind == "trunc" or kind == "cut" and cut < (g["b"] if g["b"] > 0 else 0):
                if acc: raise Bad("import: a truncated document is accepted", "%s cut %s" % (say(g), cut))
                labels.append("truncated"); continue
            want = OPEN
            try: j = load(b)
            except (ValueError, RecursionError): labels.append("not JSON"); continue
            if arr:
                if not isinstance(j, list): want = REJ
                else:
                    cl = [oclass(cfg, s, x) if isinstance(x, dict) else REJ for x in j]
                    want = REJ if REJ in cl else OPEN if OPEN in cl else ([x[0] for x in cl],)
            else: want = oclass(cfg, s, j) if isinstance(j, dict) else REJ
            if want is OPEN: labels.append("undecided"); continue
            if want is REJ:
                if acc: raise Bad("import: a document which does not fit is accepted", say(g))
                labels.append("refused"); continue
            if not acc: raise Bad("import: a document which fits is refused", say(g))
            if g["rc"] != g["b"]: raise Bad("import: number of tokens", say(g))
            v = g["v"] if arr else [g["v"]]; w = want[0] if arr else [want[0]]
            if len(v) != len(w): raise Bad("import: number of objects", say(g))
            for x, y in zip(w, v):
                try: matches(cfg, s, x, y, n)
                except Bad as e: raise Bad(e.msg, e.detail + "\n" + say(g))
            labels.append("accepted")
        if r.rc or b"driver: end 0" not in r.err: raise Bad("import: memory errors or leaks", "status %s\n%s" % (r.rc, r.errtext[-4000:]))
        return labels
    def same(self, cfg, role, s, d, v, where, log):
        for f in s["fields"]:
            if not c17.exportable(cfg, s, role, f): continue
            x = d[f["name"]]; y = v[f["name"]]; w = where + "." + f["name"]
            if isinstance(x, dict) and isinstance(y, dict): self.same(cfg, role, model.target(cfg, s, f), x, y, w, log)
            elif x != y and not (isinstance(x, str) and isinstance(y, str) and x[0] == y[0] == "r" and crun.dec(x) == crun.dec(y)): raise Bad("import: an exported value is not recovered", "%s: %r, not %r\n%s" % (w, y, x, log()))
    def nontrivial(self, l): return "accepted" in l and "refused" in l
if __name__ == "__main__": main(D)
