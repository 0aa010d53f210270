import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from c13 import *
import c17, c19, nrun, math, fractions, re, model, datetime
from ortgen import sdict, fdict

OTHER = ["u", "~", "j5", "j-1.5", "jtrue", 'j["1","2"]', 'j["a@b.org","c@d.org"]', 'j["2020-01-01"]', "j[]", 'j{"a":"1"}', "j1e300"]
MAIL = [b"someone@example.org", b" someone@example.org ", b"A.B@Example.ORG", b"a@b.co", b"nobody", b"@example.org", b"a b@example.org", b"a@@example.org", b"a@example.org\n", b"a@-"]

class Exp(c17.Exp):
    def value(self, f, v, j, where):
        if v is not None and f["type"] == "real" and isinstance(j, str):
            x = crun.dec(v)
            try: ok = float(j) == x
            except ValueError: ok = False
            if not ok: raise Bad("export: real", "%s: %r, not %r" % (where, j, x))
            return
        super().value(f, v, j, where)

def limits(F, x, n):
    """Whether a value (exact number) or length is within the limits of a field."""
    for op, v in F["limits"]:
        y = fractions.Fraction(float(v)) if F["type"] == "real" else int(v)
        if not {"eq": x == y, "gt": x > y, "ge": x >= y, "lt": x < y, "le": x <= y}[op]: return False
    return True

def want(cfg, F, b):
    """(decision, result) of a validator for a text: True, False or None for undecided."""
    t = F["type"]
    try: x = b.decode("utf-8")
    except UnicodeDecodeError: return None, None
    y = x.strip()
    if t == "enum":
        E = {str(v) for v in ortgen.enumvals(model.edict(cfg)[F["enum"]]).values()}
        if x in E: return True, "i" + x
        return (None if y in E else False), None
    if t in crun.INTS and t != "date" or t == "bits":
        if not re.fullmatch(r"-?(0|[1-9][0-9]*)", y) or y == "-0":
            return (None if re.fullmatch(r"[-+]?[0-9]+|0[xXoObB][0-9a-fA-F]+", y) else False), None
        v = int(y); lo, hi = (-2**63, 2**63 - 1)
        if t == "bits": hi = 2**64 - 1
        if t == "bit":
            if v == 64: return None, None
            lo, hi = 0, 63
        if not lo <= v <= hi: return False, None
        w = v - 2**64 if v > 2**63 - 1 else v
        a = limits(F, w, None)
        if w != v and a != limits(F, v, None): return None, None
        if a and x != y: return None, None
        return a, "i%d" % w
    if t == "date":
        m = re.fullmatch(r"([0-9]{4})-([0-9]{2})-([0-9]{2})", y)
        if not m: return (None if re.search(r"\d", y) and re.fullmatch(r"[-+0-9/.: TZ]+", y) else False), None
        if x != y or int(m[1]) < 1000: return None, None
        try: d = datetime.date(int(m[1]), int(m[2]), int(m[3]))
        except ValueError: return False, None
        v = (d - datetime.date(1970, 1, 1)).days * 86400
        return limits(F, v, None), "i%d" % v
    if t == "real":
        if not re.fullmatch(r"-?[0-9]+(\.[0-9]+)?", y):
            return (None if re.fullmatch(r"[-+]?[0-9.]+([eE][-+]?[0-9]+)?", y) else False), None
        v = float(y)
        if x != y or math.isinf(v): return None, None
        return limits(F, fractions.Fraction(v), None), "r" + v.hex()
    if t == "email":
        if re.fullmatch(r"[a-zA-Z][a-zA-Z0-9.]*[a-z]@[a-zA-Z]+\.(org|co|com)", y) and ".." not in y and len(y) < 60:
            a = limits(F, len(y), None)
            return (a if limits(F, len(x), None) == a else None), {"s" + y.encode().hex(), "s" + y.lower().encode().hex()}
        if "@" not in y or re.search(r"\s", y) or y.startswith("@") or y.endswith("@") or "@@" in y: return False, None
        return None, None
    if t in ("text", "password"): return limits(F, len(b), None), "s" + b.hex()
    return limits(F, len(b), None), "b" + b.hex()

class D(C):
    ID = "C22"
    RULE = ("generated configurations as TypeScript modules: in half of the cases seven histories in which every search, list and iteration is run and its results then exported, compared field by field with the structures (every field exportable to the role, and no other); "
            "in the other half the validators are applied to texts at and around every limit, at the bounds of types, with declared and undeclared enumeration values, texts of one- and many-byte characters, junk, and other values as from a request; accepted exactly when the type and an independent evaluation of the limits do; "
            "non-trivial: an export with nested structures or nulls of which some fields are withheld; or values within a limit accepted and others refused by one")
    N = {"quick": 800, "thorough": 25000}
    ASSUME = ["better-sqlite3, bcrypt and validator replaced by stand-ins following their documentation", "texts which JavaScript reads as numbers but which are not plainly decimal, and outlandish e-mail addresses, are not decided", "the bit index 64 is not decided (the manual says 0 to 63, the repository's tests 0 to 64)"]
    def gen(self, r, i):
        if r.random() < .5:
            case = c17.D.gen(D17, r, i); case["hists"] = [[x for x in h if x[0][0] != "="] for h in case["hists"]]
            case.update(kind="export", asan=False, vals=[])
        else:
            c = V19.gen(r, i); case = {"kind": "valid", "cfg": c["cfg"], "vals": c["vals"], "hists": [], "safe": False, "asan": False}
            for s in case["cfg"]["structs"]:
                for f in s["fields"]:
                    if f["type"] == "struct": continue
                    if sum(l[0] == "eq" for l in f["limits"]) > 1: f["limits"] = [l for l in f["limits"] if l[0] != "eq"] # the compiler finds such contradictions
                    L = []
                    if f["type"] == "email": L = [x.hex() for x in r.sample(MAIL, 5)] + [(b"a" * max(1, int(l[1]) + d - 8) + b"@abc.org").hex() for l in f["limits"] for d in (-1, 0, 1) if int(l[1]) < 50]
                    if f["type"] == "bits": L = [b"%d".hex() if False else (b"%d" % v).hex() for v in r.sample([2**64 - 1, 2**64, 2**63, 2**63 - 1, -2**63, -2**63 - 1, 2**62], 3)]
                    if f["type"] == "bit": L = [(b"%d" % v).hex() for v in (0, 63, 64, 65, -1)]
                    case["vals"] += [[s["name"], f["name"], x] for x in L] + [[s["name"], f["name"], x] for x in r.sample(OTHER, 4)]
        case["mode"] = r.choice(["module", "module", "embedded", "split"]); case["check"] = r.random() < .3
        return case
    def reductions(self, case):
        V = case["vals"]; n = len(V)
        for k in (n // 2, n // 4, n // 16, 1):
            if k < 1 or k >= n or n // k > 40: continue
            for i in range(0, n, k): yield dict(case, vals=V[i:i + k])
        if case["mode"] != "module": yield dict(case, mode="module")
        if case["check"]: yield dict(case, check=False)
        yield from super().reductions(case)
    def sample(self, case):
        d = super().sample(case); d["vals"] = ["%s.%s %r" % (a, b, c if c[:1] in set("u~j") else bytes.fromhex(c)) for a, b, c in case["vals"][:40]]
        return d
    def run(self, ctx, case):
        cfg = case["cfg"]; f = ctx.cfg(cfg)
        if ctx.tool("ort", f).rc: raise Skip("refused")
        if case["kind"] == "export" and not case["hists"]: raise Skip("no queries")
        OPS = crun.ops(cfg)
        exe, schema = nrun.build(ctx, cfg, f, OPS, case["mode"], case["check"], 4, case["kind"] == "valid")
        labels = [case["kind"], "mode " + case["mode"]] + (["type-checked"] if case["check"] else [])
        if case["kind"] == "valid": return labels + self.valid(exe, cfg, case["vals"])
        order = crun.tableorder(schema)
        def cb(ref, op, args, g, kind, log):
            last = ref.last
            if last[0] != op.name or last[1] != args: raise Skip("history does not fit")
            dump = last[2]; e = Exp(); n = op.ret["name"]
            try:
                if not isinstance(g, list) or len(g) != len(dump): raise Bad("export: number of objects", repr(g))
                for i, (d, j) in enumerate(zip(dump, g)): e.obj(cfg, ref.role, op.ret, d, j, "%s[%d]" % (n, i))
            except Bad as b: raise Bad(b.msg, "%s\n%s\nexported %s\nfrom %s\n%s" % (b.detail, op.name, json.dumps(g), json.dumps(dump), log()))
            return ["export"] + sorted(e.l) if g else []
        for hi in case["hists"]: labels += crun.replay(ctx, exe, cfg, OPS, order, hi, json_cb=cb, dumps=False)
        return labels
    def valid(self, exe, cfg, vals):
        S = sdict(cfg); labels = []
        V = [v for v in vals if v[0] in S and v[1] in fdict(S[v[0]]) and fdict(S[v[0]])[v[1]]["type"] != "struct"]
        T = [["%s-%s" % (a, b), ("undefined" if c == "u" else c if c[:1] in set("~j") else "s" + c), fdict(S[a])[b]["type"]] for a, b, c in V]
        keep = []
        for v, t in zip(V, T):
            if v[2][:1] not in set("u~j"):
                try: bytes.fromhex(v[2]).decode("utf-8")
                except UnicodeDecodeError: continue
            keep.append((v, t))
        a = nrun.node().ask({"cmd": "nvalid", "id": exe.id, "vals": [t for _, t in keep]}, 60)
        if a.get("timeout") or a.get("died") or "res" not in a: raise Bad("validators: no answer", str(a)[:500])
        names = {"%s-%s" % (s["name"], x["name"]) for s in cfg["structs"] for x in s["fields"] if x["type"] != "struct"}
        if set(a["names"]) != names: raise Bad("validators: fields in the table", "%s\nnot %s" % (a["names"], sorted(names)))
        for ((sn, fn, c), t), got in zip(keep, a["res"]):
            F = fdict(S[sn])[fn]
            say = "%s.%s: %s, limits %s\nvalue %r\nvalidator: %s" % (sn, fn, F["type"] + (" " + F["enum"] if F["enum"] else ""), F["limits"], c if c[:1] in set("u~j") else bytes.fromhex(c), got)
            if got is not None and (got.startswith("THROW") or got.startswith("TYPE") or got == "undefined"): raise Bad("validators: neither a value of the type nor null", say)
            if c in ("u", "~"):
                if got is not None: raise Bad("validators: a missing value is accepted", say)
                labels.append("missing"); continue
            if c[:1] == "j": labels.append("other value"); continue
            b = bytes.fromhex(c); dec, val = want(cfg, F, b)
            if dec is None: labels.append("undecided"); continue
            if dec and got is None: raise Bad("validators: a permitted value is refused", say)
            if not dec and got is not None: raise Bad("validators: a value outside the type or limits is accepted", say)
            if dec:
                if F["type"] == "real":
                    if float.fromhex(got[1:]) != float.fromhex(val[1:]): raise Bad("validators: parsed value", say)
                elif got not in (val if isinstance(val, set) else {val}): raise Bad("validators: parsed value", say)
            labels.append("%s %s" % (F["type"], "in limits" if dec and F["limits"] else "accepted" if dec else "outside" if F["limits"] else "refused"))
        return labels
    def nontrivial(self, l):
        if "valid" in l: return any(x.endswith("in limits") for x in l) and any(x.endswith("outside") for x in l)
        return ("nested" in l or "null" in l or "null structure" in l) and ("hidden by role" in l or "not exported" in l)
D17 = c17.D(); V19 = c19.C()
if __name__ == "__main__": main(D)
