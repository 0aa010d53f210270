import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from h import *
import model, nodesrv, base64, datetime, ortgen
from ortgen import sdict, fdict, anint
from decimal import Decimal

INTS = ("bit", "date", "epoch", "int", "enum", "bits")
NODE = None
def node():
    global NODE
    if NODE is None: NODE = nodesrv.Node("jrun.js")
    return NODE
def ask(q):
    a = node().ask(q, 90)
    if a.get("timeout") or a.get("died"): raise Bad("script: running it does not end", str(q)[:1500])
    if "exception" in a: raise RuntimeError(a["exception"])
    return a

def jsnum(x):
    """String(x) of a number in ECMAScript."""
    if x == 0: return "0"
    s, dg, ex = Decimal(repr(float(x))).as_tuple()
    d = "".join(map(str, dg)).rstrip("0"); ex += len(dg) - len(d); k = len(d); n = ex + k; o = "-" if s else ""
    if k <= n <= 21: return o + d + "0" * (n - k)
    if 0 < n <= 21: return o + d[:n] + "." + d[n:]
    if -6 < n <= 0: return o + "0." + "0" * -n + d
    e = n - 1; return o + d[0] + ("." + d[1:] if k > 1 else "") + "e" + ("+" if e > 0 else "-") + str(abs(e))
def js(v): return jsnum(v) if isinstance(v, float) else str(v)

def exported(f): return not (f["noexport"] or f["type"] == "password")
def cannull(s, f): return f["null"] if f["type"] != "struct" else fdict(s)[f["src"]]["null"]

# --------------------------------------------------------------- the model
def E(tag, cls=(), attrs=None, kids=()): return {"tag": tag, "cls": list(cls), "attrs": dict(attrs or {}), "kids": list(kids)}
def below(e):
    for c in e["kids"]:
        if isinstance(c, dict):
            yield c; yield from below(c)
def elems(e, cls, inc):
    o = [x for x in below(e) if cls in x["cls"]]
    if inc and cls in e["cls"]: o.append(e)
    return o
def hide(e, on):
    if on and "hide" not in e["cls"]: e["cls"].append("hide")
    if not on and "hide" in e["cls"]: e["cls"].remove("hide")
def put(e, t): e["kids"] = [t] if t else []
def textof(e): return "".join(c if isinstance(c, str) else textof(c) for c in e["kids"])
def valueof(e):
    if e["tag"] == "option": return e["attrs"].get("value", " ".join(textof(e).split()))
    if e["tag"] == "input": return e["attrs"].get("value", "on" if e["attrs"].get("type") in ("checkbox", "radio") else "")
    return None
def flag(e, name, on):
    if on: e["attrs"][name] = name
    else: e["attrs"].pop(name, None)
def norm(e):
    k = []
    for c in e["kids"]:
        c = c if isinstance(c, str) else norm(c)
        if c == "": continue
        if isinstance(c, str) and k and isinstance(k[-1], str): k[-1] += c
        else: k.append(c)
    return {"tag": e["tag"], "cls": sorted(e["cls"]), "attrs": dict(e["attrs"]), "kids": k}

def label(cfg, labs, lang):
    d = {a: b for a, b in labs}
    # the text of a configuration string: as the parser reads it
    t = d.get(lang, d.get("", "")) if lang else d.get("", "")
    return ortgen.rawval(t)

class Fill:
    def __init__(self, cfg, lang, custom):
        self.cfg = cfg; self.lang = lang; self.custom = custom or {}; self.log = []; self.l = set()
    def format(self, kind, e, name, v):
        cfg = self.cfg; en = {x["name"]: x for x in cfg["enums"] + cfg["bits"]}[kind]
        bits = "isunset" in en
        els = [e] if name is None else elems(e, name + "-label", False)
        cl = None
        if v is None: t = label(cfg, en["isnull"], self.lang); cl = "ort-null"
        elif not bits:
            vals = ortgen.enumvals(en); t = ""
            for it in en["items"]:
                if vals[it["name"]] == int(v): t = label(cfg, it["labels"], self.lang)
        elif int(v) == 0: t = label(cfg, en["isunset"], self.lang); cl = "ort-unset"
        else: t = ", ".join(x for x in (label(cfg, it["labels"], self.lang) for it in en["items"] if int(v) >> it["value"] & 1) if x)
        for x in els:
            if cl and cl not in x["cls"]: x["cls"].append(cl)
            put(x, t)
            if t: self.l.add("label")
    def call(self, e, key, v, root):
        for sp in self.custom.get(key, []):
            if sp[0] == "log":
                rel = [[x["attrs"], "".join(x["kids"]) if all(isinstance(k, str) for k in x["kids"]) else None] for x in [e] + list(below(e)) if any(c.startswith(key + "-") and c.split("-")[1] not in ("has", "no") for c in x["cls"])]
                self.log.append([key, sp[1], e["attrs"].get("data-i"), canon(v), rel]); self.l.add("callback")
            else: self.format(sp[1], e, key, v)
    def fill(self, e, s, o, inc):
        for f in s["fields"]:
            n = s["name"] + "-" + f["name"]; t = f["type"]
            if not exported(f): continue
            if f["name"] not in o: self.l.add("not exported"); continue
            v = o[f["name"]]
            if cannull(s, f):
                for x in elems(e, "%s-has-%s" % (s["name"], f["name"]), inc): hide(x, v is None); self.l.add("has/no")
                for x in elems(e, "%s-no-%s" % (s["name"], f["name"]), inc): hide(x, v is not None); self.l.add("has/no")
            if v is None: self.l.add("null"); self.call(e, n, None, e); continue
            if t == "struct":
                T = model.target(self.cfg, s, f)
                for x in elems(e, n + "-obj", inc): self.fill(x, T, v, False); self.l.add("nested")
            else:
                for x in elems(e, n + "-enum-select", inc):
                    for y in below(x):
                        if y["tag"] == "option": flag(y, "selected", valueof(y) == js(v)); self.l.add("select")
                for x in elems(e, n + "-text", inc): put(x, js(v)); self.l.add("text")
                for x in elems(e, n + "-value", inc): x["attrs"]["value"] = js(v); self.l.add("value")
                for x in elems(e, n + "-value-checked", inc): flag(x, "checked", valueof(x) == js(v)); self.l.add("checked")
            if t in ("bit", "bits"):
                for x in elems(e, n + "-bits-checked", inc):
                    a = valueof(x); on = False; w = int(v) & (2**64 - 1)
                    if a.isdigit() and int(a) <= 64: on = w == 0 if int(a) == 0 else bool(w >> (int(a) - 1) & 1)
                    flag(x, "checked", on); self.l.add("bits")
            if t in ("date", "epoch"):
                d = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=int(v)); d = "%04d-%02d-%02d" % (d.year, d.month, d.day)
                for x in elems(e, n + "-date-value", inc): x["attrs"]["value"] = d; self.l.add("date")
                for x in elems(e, n + "-date-text", inc): put(x, d); self.l.add("date")
            self.call(e, n, v, e)
        self.call(e, s["name"], o, e)
    def run(self, q, s):
        def at(p):
            if p is None: return None
            e = q["tree"]
            for i in p: e = e["kids"][i]
            return e
        e = at(q["at"]); d = q["data"]; m = q["method"]
        one = d[0] if isinstance(d, list) and d else None if isinstance(d, list) else d
        if m.startswith("fillArray"):
            rows = [] if d is None else d if isinstance(d, list) else [d]
            if not m.endswith("ByClass"):
                if m != "fillArray" and q["other"] is not None: hide(at(q["other"]), (m == "fillArrayOrHide") == (not rows))
                self.array(e, s, rows)
            elif e is not None:
                for x in elems(e, q["name"], False): self.array(x, s, rows)
        elif e is not None and one is not None:
            inc = "Inner" not in m
            for x in elems(e, q["name"], inc) if m.endswith("ByClass") else [e]: self.fill(x, s, one, inc)
    def array(self, e, s, rows):
        if e is None: return
        hide(e, not rows); self.l.add("rows" if len(rows) > 1 else "row" if rows else "no rows")
        if not rows: return
        first = [c for c in e["kids"] if isinstance(c, dict)][0]
        e["kids"] = []
        for o in rows:
            c = copy.deepcopy(first); e["kids"].append(c); self.fill(c, s, o, True)

# ----------------------------------------------------------- the generator
UNI = ["", "x", "<b>&amp;", "it's \"so\"", "a\\nb", "\u00e9\u4e16", "\U0001f600 z", " lead", "1", "0", "null", "a\nb"]
def value(r, cfg, f):
    t = f["type"]
    if t == "enum":
        vs = list(ortgen.enumvals({x["name"]: x for x in cfg["enums"]}[f["enum"]]).values()); v = r.choice(vs) if r.random() < .9 else r.randint(-50, 50)
    elif t == "bits":
        its = [x["value"] for x in {x["name"]: x for x in cfg["bits"]}[f["bits"]]["items"]]
        v = 0
        if r.random() < .85:
            for b in its + [r.randint(0, 63)] * (r.random() < .2):
                if r.random() < .5: v |= 1 << b
        if v >= 2**63: v -= 2**64
    elif t == "bit": v = r.choice([0, 1, 2, 3, 7, 62, 63, r.randint(0, 63), 1 << r.randint(0, 62), -2**63, -1, r.getrandbits(63)])
    elif t in ("date", "epoch"): v = r.choice([0, -1, 86399, 86400, r.randint(-2**31, 2**33), r.randint(-2208988800, 4102444800), r.randint(-62135596800, 253402300799), 951782400 + r.randint(-90000, 90000)])
    elif t == "int": v = anint(r)
    elif t == "real": return float(r.choice([0.0, -0.0, 1.5, -2.25, 1e21, 1e20, 123456789012345680000.0, 1e-6, 1e-7, 5e-324, 1.7976931348623157e308, r.uniform(-10, 10), r.uniform(-1, 1) * 10.0**r.randint(-25, 25), float(r.randint(-10**6, 10**6))]))
    elif t == "blob": return base64.b64encode(bytes(r.randrange(256) for _ in range(r.randint(0, 9)))).decode()
    elif t == "email": return "u%d@example.org" % r.randint(0, 99)
    else: return r.choice(UNI) + r.choice(["", r.choice(UNI)])
    return v if abs(v) <= 2**53 and r.random() < .5 else str(v)

def obj(r, cfg, s):
    o = {}
    for f in s["fields"]:
        if not exported(f):
            if f["type"] != "struct" and r.random() < .3: o[f["name"]] = value(r, cfg, f)
            continue
        if cfg["roles"] is not None and model.noexport_roles(cfg, s, f["name"]) and r.random() < .4: continue
        if cannull(s, f) and r.random() < .35: o[f["name"]] = None
        elif f["type"] == "struct": o[f["name"]] = obj(r, cfg, model.target(cfg, s, f))
        else: o[f["name"]] = value(r, cfg, f)
    return o

class Doc:
    def __init__(self, r, cfg): self.r = r; self.cfg = cfg; self.n = 0
    def e(self, tag, cls=(), attrs=None, kids=()):
        a = dict(attrs or {}); a["data-i"] = str(self.n); self.n += 1
        return E(tag, cls, a, kids)
    def text(self): return self.r.choice(["old", "", " ", "(unset)", "x < y"])
    def hn(self, s):
        f = self.r.choice(s["fields"]); return "%s-%s-%s" % (s["name"], self.r.choice(["has", "no"]), f["name"])
    def extra(self, s):
        r = self.r; c = []
        if r.random() < .3: c.append(self.hn(s))
        if r.random() < .3: c.append("hide")
        if r.random() < .2: c.append("other")
        return c
    def area(self, s, objs, depth=0, noobj=()):
        r = self.r; kids = []
        for _ in range(r.randint(2, 9)):
            if r.random() < .1 and depth < 2:
                kids.append(self.e("div", self.extra(s), None, self.area(s, objs, depth + 1, noobj))); continue
            f = r.choice(s["fields"]); n = s["name"] + "-" + f["name"]; t = f["type"]
            vals = [o[f["name"]] for o in objs if o and f["name"] in o]
            if t == "struct" and s["name"] not in noobj and r.random() < .9:
                T = model.target(self.cfg, s, f)
                sub = [v for v in vals if v]
                kids.append(self.e("div", [n + "-obj"] + self.extra(s), None, self.area(T, sub, depth, noobj + (s["name"],)))); continue
            K = ["text", "text", "value", "value-checked", "enum-select", "hn", "junk"]
            if t in ("bit", "bits"): K += ["bits-checked"] * 4
            if t in ("date", "epoch"): K += ["date-text", "date-value"] * 2
            if t in ("enum", "bits"): K += ["label"] * 4
            k = r.choice(K); sv = [js(v) for v in vals if v is not None and not isinstance(v, dict)]
            if k == "hn": kids.append(self.e(r.choice(["span", "div"]), ["%s-%s-%s" % (s["name"], r.choice(["has", "no"]), f["name"])] + (["hide"] if r.random() < .5 else []), None, [self.text()]))
            elif k in ("text", "date-text", "label"):
                kids.append(self.e(r.choice(["span", "p", "td"]), [n + "-" + k] + self.extra(s), None, [self.text()] + ([self.e("b", [], None, ["bold"])] if r.random() < .2 else [])))
            elif k in ("value", "date-value"): kids.append(self.e(r.choice(["input", "input", "div"]), [n + "-" + k] + self.extra(s), {"value": "old"} if r.random() < .5 else {}))
            elif k == "value-checked":
                a = {"type": r.choice(["checkbox", "radio"])}
                if r.random() < .9: a["value"] = r.choice(sv) if sv and r.random() < .6 else r.choice(["0", "1", "on", "x", "", "null", "-1"])
                if r.random() < .4: a["checked"] = "checked"
                kids.append(self.e("input", [n + "-" + k] + self.extra(s), a))
            elif k == "enum-select":
                opts = []
                for _ in range(r.randint(0, 4)):
                    v = r.choice(sv) if sv and r.random() < .5 else r.choice(["0", "1", "2", "x", "null", "-1"])
                    a = {"value": v} if r.random() < .8 else {}
                    if r.random() < .3: a["selected"] = "selected"
                    if not a.get("value") and " ".join(v.split()) != v: continue
                    opts.append(self.e("option", [], a, [v] if "value" not in a else ["opt"]))
                if opts and r.random() < .2: opts = [self.e("optgroup", [], None, opts)]
                kids.append(self.e("select", [n + "-" + k] + self.extra(s), None, opts))
            elif k == "bits-checked":
                a = {"type": "checkbox", "value": str(r.choice([0, 0, 1, 2, 3, 63, 64, r.randint(0, 64), r.randint(0, 64), 65, 100])) if r.random() < .85 else r.choice(["a", "2a", "-1", "1.5", "x1"])}
                if f["type"] == "bits" and r.random() < .5: a["value"] = str(r.choice([x["value"] for x in {x["name"]: x for x in self.cfg["bits"]}[f["bits"]]["items"]]) + 1)
                if not f["null"] and r.random() < .4: a["checked"] = "checked"
                kids.append(self.e("input", [n + "-" + k] + self.extra(s), a))
            else:
                kids.append(self.e("span", [r.choice([n, n + "-textx", "x" + n + "-text", s["name"] + "-text", "zz-" + f["name"] + "-text", n + ("-obj" if t != "struct" else "-text"), n + "-value-text"])] + self.extra(s), None, [self.text()]))
            if r.random() < .2: kids.append(self.text())
        return kids

METHODS = ["fill", "fillInner", "fillByClass", "fillInnerByClass", "fillArray", "fillArray", "fillArrayByClass", "fillArrayOrShow", "fillArrayOrHide"]
def structs_below(cfg, s, acc=None):
    acc = [] if acc is None else acc
    if s not in acc:
        acc.append(s)
        for f in s["fields"]:
            if f["type"] == "struct": structs_below(cfg, model.target(cfg, s, f), acc)
    return acc

def scenario(r, cfg):
    s = r.choice(cfg["structs"]); d = Doc(r, cfg); m = r.choice(METHODS)
    q = {"struct": s["name"], "method": m, "name": "blk", "format": None, "tz": r.choice(["UTC", "UTC", "America/New_York", "Asia/Kolkata", "Pacific/Kiritimati", "Pacific/Pago_Pago", "Europe/Amsterdam"])}
    k = r.random()
    if k < .5: q["data"] = [obj(r, cfg, s) for _ in range(r.choice([0, 1, 2, 2, 3]))]
    elif m.startswith("fillArray") and k < .55: q["data"] = None
    else: q["data"] = obj(r, cfg, s)
    objs = q["data"] if isinstance(q["data"], list) else [q["data"]]
    langs = sorted({l[0] for e in cfg["enums"] + cfg["bits"] for L in [e["isnull"], e.get("isunset", [])] + [i["labels"] for i in e["items"]] for l in L if l[0]})
    q["lang"] = r.choice([None, "", "en", "xx"] + langs * 2)
    rootcls = []
    if m == "fillArrayByClass":
        area = d.e("div", [], None, [d.e("table", ["blk"] + d.extra(s), None, [" ", d.e("tr", d.extra(s), None, d.area(s, objs)), d.e("tr", [], None, ["second"])]) for _ in range(r.randint(0, 2))] + d.area(s, objs))
    elif m.endswith("ByClass"):
        def blk(): return d.e("div", ["blk"] + d.extra(s), None, d.area(s, objs))
        area = d.e("div", (["blk"] if r.random() < .5 else []) + d.extra(s), None, [blk() for _ in range(r.randint(0, 2))] + (d.area(s, objs) if r.random() < .5 else []))
    elif m.startswith("fillArray"):
        row = d.e(r.choice(["li", "tr"]), d.extra(s), None, d.area(s, objs))
        area = d.e("ul", d.extra(s), None, ([d.text()] if r.random() < .5 else []) + [row] + ([d.e("li", [], None, ["more"])] if r.random() < .4 else []))
        if r.random() < .3:
            f = r.choice(s["fields"]); row["cls"].append("%s-%s-value" % (s["name"], f["name"]))
    else:
        area = d.e("div", d.extra(s), None, d.area(s, objs))
        if r.random() < .4:
            f = r.choice(s["fields"]); area["cls"].append("%s-%s-%s" % (s["name"], f["name"], "value" if f["type"] != "struct" else "obj"))
            if f["type"] == "struct": area["cls"].remove(area["cls"][-1])
    q["at"] = [0] if r.random() < .96 else None
    q["other"] = [1] if r.random() < .9 else None
    q["tree"] = d.e("section", d.extra(s), None, [area, d.e("p", ["hide"] if r.random() < .5 else [], None, ["note"]), d.e("aside", [], None, d.area(s, objs))])
    # custom callbacks
    q["custom"] = None; q["nullcustom"] = r.random() < .5
    if r.random() < .75:
        c = {}; i = 0
        for t in structs_below(cfg, s):
            def cb(fmt):
                nonlocal i; i += 1
                return ["fmt", fmt, False] if fmt and r.random() < .75 else ["log", i, False]
            for f in t["fields"]:
                if not exported(f) or r.random() > (.75 if f["type"] in ("enum", "bits") else .25): continue
                fmt = f.get("enum") if f["type"] == "enum" else f.get("bits") if f["type"] == "bits" else None
                l = [cb(fmt) for _ in range(r.choice([1, 1, 1, 2, 3]))]
                if r.random() < .3: l[0][2] = True     # an array, even of one
                c[t["name"] + "-" + f["name"]] = l
            if r.random() < .3: c[t["name"]] = [cb(None) for _ in range(r.choice([1, 2]))]
        q["custom"] = c
    if cfg["enums"] + cfg["bits"] and r.random() < .2:
        e = r.choice(cfg["enums"] + cfg["bits"]); q["format"] = [e["name"], r.choice([None, "lab"]), None]
        if r.random() < .8: q["format"][2] = value(r, cfg, {"type": "bits" if "isunset" in e else "enum", "enum": e["name"], "bits": e["name"]})
        q["at"] = [0]; area["kids"] += [d.e("i", ["lab-label"], None, ["old"]), d.e("i", ["lab"], None, ["old"])]
        q["tree"]["kids"][0] = area
    return q

# ------------------------------------------------------------------- Long
M64 = 2**64
def wrap(v, u): v %= M64; return v if u or v < 2**63 else v - M64
def longs(r):
    o = []
    def lit(u):
        k = r.random()
        lo, hi = (0, M64 - 1) if u else (-2**63, 2**63 - 1)
        if k < .25: v = r.choice([0, 1, 2, 3, 99999999, 100000000, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**53, 2**53 + 1, 2**63 - 1] + ([2**63, M64 - 1, M64 - 2] if u else [-1, -2, -2**31, -2**32, -2**63, -2**63 + 1]))
        elif k < .6: v = r.getrandbits(r.randint(1, 63))
        else: v = r.randint(-10**r.randint(1, 18), 10**r.randint(1, 18))
        if u: v = abs(v)
        return max(lo, min(hi, v))
    for _ in range(40):
        u = r.random() < .3; A = ["s", u or (None if r.random() < .5 else False), str(lit(u))]
        w = r.random() < .3; B = ["s", w or (None if r.random() < .5 else False), str(lit(w))]
        if r.random() < .2: B = ["n", None, str(r.randint(-2**53, 2**53))]
        k = r.random()
        if k < .12: o.append(["fromString", A[2], A[1]])
        elif k < .2: o.append([r.choice(["fromString", "fromStringZero"]), r.choice(["", "-", "--5", "5-", "1-2", "+5", " 5", "5 ", "1.5", "0x10", "NaN", "Infinity", "-Infinity", "1e3", "a", "12345678a", "-12345678a", "123456789 12", "٣", "5\n"]), None])
        elif k < .3:
            v = r.choice([0.5, -0.5, 1e300, -1e300, 2.0**63, -2.0**63, 2.0**64, 4294967296.0, 4294967295.0, -4294967296.0, 1e15 + .5, float(lit(False)), float(r.randint(-2**53, 2**53)), float("inf"), float("-inf"), float("nan")])
            o.append(["fromNumber", {"inf": "Infinity", "-inf": "-Infinity", "nan": "NaN"}.get(repr(v), repr(v)), r.choice([None, False, True])])
        elif k < .35: o.append(["fromValue", r.choice(["undefined", "null", "true", "{}", "[]", json.dumps(A[2]), str(r.randint(-2**53, 2**53)), '"zz"'])])
        elif k < .5: o.append([r.choice(["isZero", "isOdd", "isNegative", "neg", "not", "toNumber", "toInt"]), A])
        elif k < .6: o.append(["shl", A, ["n", None, str(r.randint(0, 70))]])
        else: o.append([r.choice(["eq", "eq", "compare", "compare", "and", "or", "add", "sub", "mul", "mul"]), A, r.choice([B, B, B, A]) if r.random() < .9 else ["s", not A[1] or None, str(int(A[2].lstrip("-")) % 2**63)]])
    return o
def wantlong(o):
    """The documented result, or None where there is none."""
    op = o[0]
    if op in ("fromString", "fromStringZero"):
        import re
        if re.fullmatch(r"-?[0-9]+", o[1]):
            v = int(o[1]); return ("u" if o[2] else "s") + str(v) if (0 <= v < M64 if o[2] else -2**63 <= v < 2**63) else None
        return "null" if op == "fromString" else "s0"
    if op == "fromNumber":
        x = float(o[1].replace("Infinity", "inf")); u = o[2]
        if x != x: return "u0" if u else "s0"
        lo, hi = (0, M64 - 1) if u else (-2**63, 2**63 - 1)
        v = lo if x <= lo else hi if x >= hi else int(x)
        return ("u" if u else "s") + str(v)
    if op == "fromValue":
        if o[1] == "undefined": return "null"
        v = json.loads(o[1])
        if isinstance(v, bool) or v is None or isinstance(v, (dict, list)): return "null"
        try: v = int(v)
        except ValueError: return "null"
        return "s%d" % v if -2**63 <= v < 2**63 else None
    ty = lambda x: x[0] == "s" and bool(x[1])
    a = int(o[1][2]); u = ty(o[1]); p = "u" if u else "s"
    rng = lambda v: p + str(v) if (0 <= v < M64 if u else -2**63 <= v < 2**63) else None
    if op == "isZero": return str(a == 0).lower()
    if op == "isOdd": return str(a % 2 == 1).lower()
    if op == "isNegative": return str(a < 0).lower()
    if op == "neg": return rng(-a)
    if op == "not": return p + str(wrap(~a, u))
    if op == "toNumber": return "n" + jsnum(float(a))
    if op == "toInt": return "n" + str(a % 2**32 if u else (a % 2**32 ^ 2**31) - 2**31)
    b = int(o[2][2])
    if op == "shl": return p + str(wrap(a << (b % 64), u))
    if op == "eq": return str(a == b).lower()
    if op == "compare": return "n%d" % ((a > b) - (a < b))
    if op == "and": return p + str(wrap(a & b, u))
    if op == "or": return p + str(wrap(a | b, u))
    v = {"add": a + b, "sub": a - b, "mul": a * b}[op]
    x = rng(v)
    return x if op != "mul" or v else None if x is None else x[1:] and "?0"

def usage(cfg):
    o = ["namespace usage {\nexport function log(e: HTMLElement, name: string, v: any): void { void [e, name, v]; }\n"]
    T = dict(bit="string|number", bits="string|number", date="string|number", epoch="string|number", int="string|number", enum="string|number", real="number", blob="string", text="string", email="string")
    for s in cfg["structs"]:
        n = s["name"]; ex = [f for f in s["fields"] if exported(f)]
        o.append("export function u_%s(d: ort.%sData, e: HTMLElement|null): void {\n" % (n, n))
        for f in ex:
            t = "ort.%sData" % model.target(cfg, s, f)["name"] if f["type"] == "struct" else T[f["type"]]
            if cfg["roles"] is not None and model.noexport_roles(cfg, s, f["name"]): t += "|undefined"
            o.append("const x_%s: %s = d.%s; void x_%s;\n" % (f["name"], t, f["name"], f["name"]))
        o.append("const c: ort.DataCallbacks = { '%s': log, %s };\n" % (n, ", ".join("'%s-%s': %s" % (n, f["name"], "ort.%s.format" % f["enum"] if f["type"] == "enum" else "[ort.%s.format]" % f["bits"] if f["type"] == "bits" else "[log, log]") for f in ex)))
        o.append("for (const x of [new ort.%s(d), new ort.%s([d, d]), new ort.%s([])]) {\n" % (n, n, n))
        for m in ("fill", "fillInner", "fillArray"): o.append("x.%s(e); x.%s(e, null); x.%s(e, c);\n" % (m, m, m))
        for m in ("fillByClass", "fillInnerByClass", "fillArrayByClass"): o.append("x.%s(e, 'k'); x.%s(e, 'k', c);\n" % (m, m))
        for m in ("fillArrayOrShow", "fillArrayOrHide"): o.append("x.%s(e, e); x.%s(null, e, c);\n" % (m, m))
        o.append("}\n}\n")
    for e in cfg["enums"]:
        o.append("export function u_%s(e: HTMLElement): string { ort.%s.format(e, 'x', null); ort.%s.format(e, null, 3); ort.%s.format(e, null, '3'); return %s; }\n" % ((e["name"],) * 4 + (" + ".join("ort.%s.%s" % (e["name"], i["name"]) for i in e["items"]),)))
    for b in cfg["bits"]:
        o.append("export function u_%s(e: HTMLElement): number { ort.%s.format(e, 'x', null); ort.%s.format(e, null, 3); void [%s]; return ort.%s.BITI__MAX + %s; }\n" % ((b["name"],) * 3 + (", ".join("ort.%s.BITF_%s" % (b["name"], i["name"]) for i in b["items"]), b["name"], " + ".join("ort.%s.BITI_%s" % (b["name"], i["name"]) for i in b["items"]))))
    return "".join(o) + "}\n"

class C(Check):
    ID = "C23"
    RULE = ("generated configurations through ort-javascript, transpiled and loaded over a small document object model: eight fills each (all methods, single objects and arrays, absent, null and nested data, custom callbacks) of generated documents with fields' classes in and outside the filled part, "
            "compared with an independent model of the documented classes (whole document, callbacks' arguments and moment); labels in the document's language; forty operations of its 64-bit integers against exact ones; 20 % also type-checked with a program using the whole interface; "
            "non-trivial: a fill which changed elements of at least three kinds")
    N = {"quick": 1000, "thorough": 60000}
    NS = 8
    ASSUME = ["a document object model written for this check replaces the browser's", "dates are those of UTC wherever the page is shown", "elements have at most one class replacing their contents; what several would do to one element is not decided", "the order between callbacks of different fields is not decided"]
    def gen(self, r, i):
        p = ortgen.Prof(structs=(1, 4), fields=(1, 8), comments=.1, queries=(0, 0), updates=(0, 0), deletes=(0, 0), enums=(0, 3), bits=(0, 2), labels=.85, roles=.4, structref=.9, exotic=.25,
                        types={"int": 4, "text": 3, "real": 2, "blob": 1, "date": 3, "epoch": 2, "email": 1, "password": .7, "enum": 5, "bits": 5, "bit": 4}, null=.4)
        cfg = ortgen.gen(r, p)
        return {"cfg": cfg, "check": r.random() < .2, "fills": [scenario(r, cfg) for _ in range(self.NS)], "longs": longs(r)}
    def reductions(self, case):
        F = case["fills"]; L = case["longs"]
        if len(F) > 1 or F and L:
            for x in F: yield dict(case, fills=[x], longs=[])
        if L and F: yield dict(case, fills=[])
        if len(L) > 1:
            for x in L: yield dict(case, longs=[x])
        if case["check"]: yield dict(case, check=False)
        if len(F) == 1:
            q = F[0]
            for k in (q["custom"] or {}): yield dict(case, fills=[dict(q, custom={a: b for a, b in q["custom"].items() if a != k})])
            if isinstance(q["data"], list) and len(q["data"]) > 1:
                for k in range(len(q["data"])): yield dict(case, fills=[dict(q, data=q["data"][:k] + q["data"][k + 1:])])
            def cut(path):
                t = copy.deepcopy(q["tree"]); e = t
                for k in path[:-1]: e = e["kids"][k]
                del e["kids"][path[-1]]; return t
            def walk(e, pre):
                for k, c in enumerate(e["kids"]):
                    if len(pre) + 1 > 1: yield pre + [k]
                    if isinstance(c, dict): yield from walk(c, pre + [k])
            if q["method"].startswith("fillArray") is False or True:
                for pth in list(walk(q["tree"], [])):
                    if len(pth) < 3 and q["method"].startswith("fillArray"): continue
                    yield dict(case, fills=[dict(q, tree=cut(pth))])
        yield from super().reductions(case)
    def run(self, ctx, case):
        cfg = case["cfg"]; f = ctx.cfg(cfg)
        if ctx.tool("ort", f).rc: raise Skip("refused")
        src = ctx.ok("ort-javascript", "-S", ortbuild.REPO, f).text
        a = ask({"cmd": "jbuild", "src": src, "check": case["check"], "usage": usage(cfg) if case["check"] else None})
        if a["errs"]: raise Bad("script: does not %s" % ("load" if a["errs"][0].startswith("loading") else "type-check"), "\n".join(a["errs"][:10]))
        labels = []
        if case["check"]: labels.append("type-checked")
        S = sdict(cfg)
        if case["longs"]:
            res = ask({"cmd": "jlong", "ops": case["longs"]})["res"]
            for o, g in zip(case["longs"], res):
                w = wantlong(o)
                if w is None: continue
                if w == "?0":
                    if g[1:] != "0": raise Bad("64-bit integers: " + o[0], "%r gives %s, not 0" % (o, g))
                elif g != w: raise Bad("64-bit integers: " + o[0], "%r gives %s, not %s" % (o, g, w))
            labels.append("64-bit operations")
        for q in case["fills"]:
            have = {x["name"] for x in cfg["enums"] + cfg["bits"]}
            if q["struct"] not in S or q["format"] and q["format"][0] not in have or any(x[0] == "fmt" and x[1] not in have for l in (q["custom"] or {}).values() for x in l): raise Skip("reduced")
            a = ask({k: v for k, v in list(q.items()) + [("cmd", "jfill")]})
            if "err" in a: raise Bad("fill: exception", a["err"] + "\n" + show(q))
            F = Fill(cfg, q["lang"], q["custom"]); m = copy.deepcopy(q)
            if q["format"]:
                F.format(q["format"][0], m["tree"]["kids"][0], q["format"][1], q["format"][2])
            else: F.run(m, S[q["struct"]])
            g, w = norm(a["tree"]), norm(m["tree"])
            if g != w: raise Bad("fill: document", "%s\n%s" % (diff(w, g, []), show(q)))
            glog = sorted(([k, i, None, "undefined" if v == "undefined" else canon(json.loads(v)), [[x[1], x[2]] for x in rel], nm] for k, i, isroot, nm, v, rel in a["log"]), key=lambda x: json.dumps([x[0], x[3]], sort_keys=True))
            wlog = sorted(F.log, key=lambda x: json.dumps([x[0], x[3]], sort_keys=True))
            for x in glog:
                if x[5] != x[0]: raise Bad("fill: callback", "called with the name %r for %r\n%s" % (x[5], x[0], show(q)))
            G = [[x[0], x[1], x[3], x[4]] for x in glog]; W = [[x[0], x[1], x[3], x[4]] for x in wlog]
            if G != W: 
                k = next((k for k in range(max(len(G), len(W))) if k >= len(G) or k >= len(W) or G[k] != W[k]), 0)
                raise Bad("fill: callbacks", "expected %s\ngot      %s\n%s" % (json.dumps(W[k:k+1]), json.dumps(G[k:k+1]), show(q)))
            labels += ["fill"] + sorted(F.l)
            if len(F.l & {"has/no", "text", "value", "checked", "select", "bits", "date", "label", "nested", "rows"}) >= 3: labels.append("rich")
        return labels
    def nontrivial(self, l): return "rich" in l
    def sample(self, case):
        return {"cfg": ortgen.pretty(case["cfg"]), "fill": show(case["fills"][0])[:1500] if case["fills"] else None, "longs": case["longs"][:4]}
def html(e, ind=0):
    if isinstance(e, str): return " " * ind + repr(e) + "\n"
    return " " * ind + "<%s%s%s>\n" % (e["tag"], ' class="%s"' % " ".join(e["cls"]) if e["cls"] else "", "".join(' %s="%s"' % x for x in e["attrs"].items())) + "".join(html(k, ind + 1) for k in e["kids"])
def canon(v):
    """A JSON value with one form for each number."""
    if isinstance(v, list): return [canon(x) for x in v]
    if isinstance(v, dict): return {k: canon(x) for k, x in v.items()}
    if isinstance(v, (int, float)) and not isinstance(v, bool): return int(v) if abs(v) <= 2**53 and v == int(v) else float(v)
    return v
def show(q): return json.dumps({k: v for k, v in q.items() if k != "tree"}, ensure_ascii=False) + "\n" + html(q["tree"])
def diff(w, g, path):
    if isinstance(w, str) or isinstance(g, str): return None if w == g else "at %s: expected %r, got %r" % (path, w, g)
    for k in ("tag", "cls", "attrs"):
        if w[k] != g[k]: return "at %s %s: expected %r, got %r" % (path, w["cls"], w[k], g[k])
    if len(w["kids"]) != len(g["kids"]): return "at %s %s: expected contents %r, got %r" % (path, w["cls"], w["kids"], g["kids"])
    for i, (a, b) in enumerate(zip(w["kids"], g["kids"])):
        d = diff(a, b, path + [i])
        if d: return d
    return None
if __name__ == "__main__": main(C)
