import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from h import *
import nodesrv, ortgen
from c23 import E, below, elems, hide, put, norm, diff, html

NODE = None
def ask(q):
    global NODE
    if NODE is None: NODE = nodesrv.Node("docrun.js")
    a = NODE.ask(q, 90)
    if a.get("timeout") or a.get("died"): raise Bad("page: filling it in does not end", str(q)[:1500])
    if "exception" in a: raise RuntimeError(a["exception"])
    return a

OWN = {"strct": "strct", "query": "query", "update": "update", "field": "field", "enm": "enum", "eitem": "enumitem", "bitf": "bitf", "bitindex": "bitindex", "role": "role"}
TYPES = ["bit", "date", "epoch", "int", "real", "blob", "text", "password", "email", "struct", "enum", "bitfield"]
ACTS = ["none", "restrict", "nullify", "default", "cascade"]

# ------------------------------------------------------------- what there is
# For each kind of object the documented classes: what replaces contents,
# what sets an attribute, what is shown or hidden, and the lists.
def ctx(text="", attrs=None, show="", lists=None, pairs="", checked=()):
    t = text.split(); s = show.split()
    for p in pairs.split(): s += [p + "-has", p + "-none"]
    return {"text": t, "attrs": dict(attrs or {}), "show": s, "lists": dict(lists or {}), "checked": list(checked)}
def doc(k): return {"text": ["config-%s-doc" % k], "attrs": {"config-%s-doc-value" % k: "value"}, "show": ["config-%s-doc-has" % k, "config-%s-doc-none" % k]}
def named(k, extra=("id", "link", "value", "data")):
    a = {"id": "id", "link": "href", "value": "value", "data": "data-name"}
    return {"config-%s-name-%s" % (k, x): a[x] for x in extra}
def under(k): return {"config-%s-name-link" % k: "href", "config-%s-name-id" % k: "id"}
def rolemap(k): return "config-%s-rolemap-join" % k, "config-%s-rolemap" % k, {"config-%s-rolemap" % k: "rm-" + k}
def add(c, k=None, rm=None):
    if k:
        d = doc(k); c["text"] += d["text"]; c["attrs"].update(d["attrs"]); c["show"] += d["show"]
    if rm:
        t, p, l = rolemap(rm); c["text"].append(t); c["show"] += [p + "-has", p + "-none"]; c["lists"].update(l)
    return c
def labelled(c, *names):
    for n in names:
        c["show"] += ["config-%s-labels-has" % n, "config-%s-labels-none" % n]; c["lists"]["config-%s-labels" % n] = "label"
    return c
CTX = {
    "top": ctx(attrs=dict([("config-%s-prefix-link" % k, "href") for k in ("strcts", "roles", "enums", "bitfs")] + [("config-%s-prefix-id" % k, "id") for k in ("strcts", "roles", "enums", "bitfs")]),
               ),
    "strcts": ctx(attrs=under("strcts"), pairs="config-strcts", lists={"config-strcts": "strct"}),
    "roles": ctx(attrs=under("roles"), pairs="config-roles", lists={"config-roles": "role"}),
    "enums": ctx(attrs=under("enums"), pairs="config-enums", lists={"config-enums": "enum"}),
    "bitfs": ctx(attrs=under("bitfs"), pairs="config-bitfs", lists={"config-bitfs": "bitf"}),
    "enum": labelled(add(ctx("config-enum-name", dict(named("enum"), **under("eitems")), pairs="config-eitems", lists={"config-eitems": "enumitem"}), "enum"), "enum-null"),
    "bitf": labelled(add(ctx("config-bitf-name", dict(named("bitf"), **under("bitems")), pairs="config-bitems", lists={"config-bitems": "bitindex"}), "bitf"), "bitf-null", "bitf-unset"),
    "enumitem": labelled(add(ctx("config-enumitem-name config-enumitem-value", dict(named("enumitem", ("id", "link", "value")), **{"config-enumitem-value-value": "value"}), pairs="config-enumitem-value"), "enumitem"), "enumitem"),
    "bitindex": labelled(add(ctx("config-bitindex-name config-bitindex-value config-bitindex-mask", dict(named("bitindex", ("id", "link", "value")), **{"config-bitindex-value-value": "value"})), "bitindex"), "bitindex"),
    "label": ctx("config-label-lang config-label-value"),
    "role": add(ctx("config-role-name config-role-parent config-role-subrq-join", dict(named("role"), **{"config-role-parent-link": "href"}), pairs="config-role-parent config-role-subrq", lists={"config-role-subrq": "subrole"}), "role"),
    "subrole": ctx("config-role-subrq-role-name", {"config-role-subrq-role-link": "href"}),
    "strct": add(ctx("config-strct-name", dict(named("strct"), **dict(list(under("fields").items()) + list(under("queries").items()) + list(under("updates").items()) + list(under("deletes").items()))),
                     pairs="config-fields config-insert config-uniques config-updates config-deletes config-queries",
                     lists={"config-fields": "field", "config-uniques": "unique", "config-updates": "update", "config-deletes": "update", "config-queries": "query"}), "strct", "insert"),
    "unique": ctx("config-unique"),
    "update": add(ctx("config-update-name", named("update", ("id", "link", "value")), pairs="config-update-name config-update-fields config-update-crq config-update-mrq", lists={"config-update-crq": "uref", "config-update-mrq": "uref"}), "update", "update"),
    "uref": ctx("config-uref-field config-uref-op config-uref-mod", {"config-uref-field-value": "value", "config-uref-op-value": "value", "config-uref-mod-value": "value"}),
    "query": add(ctx("config-query-name config-query-type config-query-limit config-query-offset config-query-dst-fname config-query-aggr-op config-query-aggr-fname config-query-group-fname",
                     dict(named("query", ("id", "link", "value")), **{"config-query-limit-value": "value", "config-query-offset-value": "value"}),
                     pairs="config-query-name config-query-sntq config-query-ordq config-query-aggr config-query-dst config-query-limit config-query-limoffs config-query-offset",
                     lists={"config-query-sntq": "sent", "config-query-ordq": "ord"}), "query", "query"),
    "sent": ctx("config-sent-fname config-sent-op", {"config-sent-fname-value": "value", "config-sent-op-value": "value"}),
    "ord": ctx("config-ord-fname config-ord-op", {"config-ord-fname-value": "value", "config-ord-op-value": "value"}),
    "field": add(ctx("config-field-name config-field-type config-field-ref-target-strct config-field-ref-target-field config-field-ref-source-strct config-field-ref-source-field config-field-bitf config-field-enm config-field-actdel config-field-actup config-field-def config-field-limit config-field-flags-join",
                     dict(named("field"), **{"config-field-fullname-data": "data-fullname", "config-field-ref-target-strct-link": "href", "config-field-ref-target-field-link": "href", "config-field-ref-source-strct-link": "href", "config-field-ref-source-field-link": "href", "config-field-def-value": "value", "config-field-enm-link": "href", "config-field-bitf-link": "href"}),
                     " ".join(["config-field-type-" + t for t in TYPES] + ["config-field-%s-%s" % (k, a) for k in ("actup", "actdel") for a in ACTS] + ["config-field-limit-" + x for x in ("number", "real", "string", "enum")] + ["config-field-store-type"] * 2),
                     pairs="config-field-ref config-field-fkey config-field-bitf config-field-enm config-field-def config-field-limits config-field-flags",
                     checked=["config-field-flag-%s-set" % x for x in ("rowid", "null", "unique", "noexport")]), "field", "field"),
}
for _k in ("insert", "update", "query", "field"):
    _c = "config-%s-rolemap-role" % _k
    CTX["rm-" + _k] = ctx(_c, {_c + "-value": "value", _c + "-link": "href"})
CTX["all"] = {"text": [], "attrs": {}, "show": [], "lists": {}, "checked": []}
for _k in ("top", "strcts", "roles", "enums", "bitfs"):
    for x in CTX["all"]:
        if isinstance(CTX["all"][x], list): CTX["all"][x] = CTX["all"][x] + CTX[_k][x]
        else: CTX["all"][x] = dict(CTX["all"][x], **CTX[_k][x])

# ----------------------------------------------------------------- the model
class Page:
    """Fills a page in as the documentation of the classes has it."""
    def __init__(self, cfg, pre, cbs, arg, log, l):
        self.c = cfg; self.p = pre or {"strcts": "", "roles": "", "enums": "", "bitfs": ""}; self.cbs = cbs or []; self.arg = arg; self.log = log; self.l = l
    # each on the element itself and all below
    def text(self, e, cls, t):
        for x in elems(e, cls, True): put(x, str(t)); self.l.add("text")
    def attr(self, e, cls, a, v):
        for x in elems(e, cls, True): x["attrs"][a] = str(v); self.l.add("attribute")
    def show(self, e, cls, on):
        for x in elems(e, cls, True): hide(x, not on); self.l.add("shown or hidden")
    def pair(self, e, cls, has): self.show(e, cls + "-has", has); self.show(e, cls + "-none", not has)
    def ref(self, e, cls, where, a="both"):
        """An object's place in the page: -id is that, -link goes there."""
        if a == "both": self.attr(e, cls + "-id", "id", where)
        self.attr(e, cls + "-link", "href", "#" + where)
    def list(self, e, cls, objs, fill):
        for x in elems(e, cls, True):
            first = [k for k in x["kids"] if isinstance(k, dict)][:1]
            hide(x, not objs)
            if not objs or not first: continue
            x["kids"] = []
            for n, o in enumerate(objs):
                k = copy.deepcopy(first[0]); x["kids"].append(k); fill(k, o)
            self.l.add("list")
            if len(objs) > 1: self.l.add("list of several")
    def cb(self, kind, e, o):
        if kind not in self.cbs: return
        n = "config-%s-" % OWN[kind]; own = []
        for x in [e] + list(below(e)):
            if not any(c.startswith(n + "name") or c == n + "doc" for c in x["cls"]): continue
            own.append([x["attrs"].get("data-i")] + self.own(n, x["cls"], "".join(k for k in x["kids"] if isinstance(k, str)), x["attrs"]))
        self.log.append([kind, o["name"], o.get("parent"), self.arg, sorted(own, key=str)]); self.l.add("callback")
    @staticmethod
    def own(n, cls, text, attrs):
        return [text if n + "name" in cls or n + "doc" in cls else None] + [attrs.get(a) if n + "name-" + k in cls else None for k, a in (("value", "value"), ("link", "href"), ("id", "id"))]
    def doc(self, e, k, d):
        d = d or ""; c = "config-%s-doc" % k
        self.pair(e, c, d != ""); self.text(e, c, d); self.attr(e, c + "-value", "value", d)
    def roles(self, e, k, m):
        c = "config-%s-rolemap" % k; m = m or []
        self.pair(e, c, bool(m)); self.text(e, c + "-join", ", ".join(m))
        def one(x, r):
            self.text(x, c + "-role", r); self.attr(x, c + "-role-value", "value", r); self.attr(x, c + "-role-link", "href", "#" + self.p["roles"] + "roles/" + r)
        self.list(e, c, m, one)
    def labels(self, e, k, d):
        c = "config-%s-labels" % k
        self.pair(e, c, bool(d))
        def one(x, l): self.text(x, "config-label-lang", l["lang"]); self.text(x, "config-label-value", l["value"])
        self.list(e, c, [d[n] for n in sorted(d)], one)
    # the objects
    def fill(self, e):
        for k in ("strcts", "roles", "enums", "bitfs"):
            self.ref(e, "config-%s-prefix" % k, self.p[k])
        self.roleset(e, None); self.strctset(e); self.enumset(e); self.bitfset(e)
        hide(e, False)
    def set(self, e, k, objs, fill):
        self.ref(e, "config-%s-name" % k, self.p[k] + k)
        self.pair(e, "config-" + k, bool(objs)); self.list(e, "config-" + k, objs, fill)
    def bitfset(self, e): self.set(e, "bitfs", [self.c["bq"][n] for n in sorted(self.c["bq"])], self.bitf)
    def enumset(self, e): self.set(e, "enums", [self.c["eq"][n] for n in sorted(self.c["eq"])], self.enum)
    def strctset(self, e): self.set(e, "strcts", [self.c["sq"][n] for n in sorted(self.c["sq"])], self.strct)
    def roleset(self, e, ex):
        rq = self.c["rq"] or {}
        self.set(e, "roles", [rq[n] for n in sorted(rq, key=lambda n: n.lower()) if n not in (ex or [])], self.role)
    def role(self, e, r):
        at = self.p["roles"] + "roles/"
        self.doc(e, "role", r["doc"]); self.name(e, "role", r["name"], at + r["name"], True)
        self.pair(e, "config-role-parent", r["parent"] is not None); self.text(e, "config-role-parent", r["parent"] or "")
        if r["parent"] is not None: self.ref(e, "config-role-parent", at + r["parent"], "link")
        self.pair(e, "config-role-subrq", bool(r["subrq"])); self.text(e, "config-role-subrq-join", ", ".join(r["subrq"]))
        def one(x, n): self.text(x, "config-role-subrq-role-name", n); self.ref(x, "config-role-subrq-role", at + n, "link")
        self.list(e, "config-role-subrq", r["subrq"], one)
        self.cb("role", e, r)
    def name(self, e, k, n, at, data=False):
        c = "config-%s-name" % k
        self.text(e, c, n); self.attr(e, c + "-value", "value", n); self.ref(e, c, at)
        if data: self.attr(e, c + "-data", "data-name", n)
    def enum(self, e, x):
        at = self.p["enums"] + "enums/" + x["name"]
        self.doc(e, "enum", x["doc"]); self.name(e, "enum", x["name"], at, True)
        self.ref(e, "config-eitems-name", at + "/eitems"); self.pair(e, "config-eitems", bool(x["eq"]))
        self.list(e, "config-eitems", [x["eq"][n] for n in sorted(x["eq"])], self.eitem)
        self.labels(e, "enum-null", x["labelsNull"]); self.cb("enm", e, x)
    def eitem(self, e, i):
        self.doc(e, "enumitem", i["doc"]); self.name(e, "enumitem", i["name"], self.p["enums"] + "enums/" + i["parent"] + "/eitems/" + i["name"])
        v = "" if i["value"] is None else i["value"]
        self.pair(e, "config-enumitem-value", i["value"] is not None); self.text(e, "config-enumitem-value", v); self.attr(e, "config-enumitem-value-value", "value", v)
        self.labels(e, "enumitem", i["labels"]); self.cb("eitem", e, i)
    def bitf(self, e, x):
        at = self.p["bitfs"] + "bitfs/" + x["name"]
        self.doc(e, "bitf", x["doc"]); self.name(e, "bitf", x["name"], at, True)
        self.ref(e, "config-bitems-name", at + "/bitems"); self.pair(e, "config-bitems", bool(x["bq"]))
        self.list(e, "config-bitems", [x["bq"][n] for n in sorted(x["bq"])], self.bitem)
        self.labels(e, "bitf-null", x["labelsNull"]); self.labels(e, "bitf-unset", x["labelsUnset"]); self.cb("bitf", e, x)
    def bitem(self, e, i):
        self.doc(e, "bitindex", i["doc"]); self.name(e, "bitindex", i["name"], self.p["bitfs"] + "bitfs/" + i["parent"] + "/bitems/" + i["name"])
        self.text(e, "config-bitindex-value", i["value"]); self.attr(e, "config-bitindex-value-value", "value", i["value"]); self.text(e, "config-bitindex-mask", i["mask"])
        self.labels(e, "bitindex", i["labels"]); self.cb("bitindex", e, i)
    def strct(self, e, s):
        at = self.p["strcts"] + "strcts/" + s["name"]
        self.doc(e, "strct", s["doc"]); self.name(e, "strct", s["name"], at, True)
        self.fieldset(e, s, None)
        self.pair(e, "config-uniques", bool(s["nq"])); self.list(e, "config-uniques", s["nq"], lambda x, u: self.text(x, "config-unique", ", ".join(u["nq"])))
        for k, q, f in (("updates", s["uq"], self.update), ("deletes", s["dq"], self.update), ("queries", s["sq"], self.query)):
            objs = [(q["named"][n], 0) for n in sorted(q["named"])] + [(a, n) for n, a in enumerate(q["anon"])]
            self.ref(e, "config-%s-name" % k, at + "/" + k); self.pair(e, "config-" + k, bool(objs))
            self.list(e, "config-" + k, objs, lambda x, o: f(x, o[0], o[1], k))
        self.pair(e, "config-insert", s["insert"] is not None); self.roles(e, "insert", s["insert"] and s["insert"]["rolemap"])
        self.cb("strct", e, s)
    def opname(self, e, k, o, at, anon):
        self.pair(e, "config-%s-name" % k, o["name"] is not None)
        self.name(e, k, o["name"] or "", self.p["strcts"] + "strcts/" + o["parent"] + "/" + at + "/" + (o["name"] or anon))
    def update(self, e, u, n, k):
        self.doc(e, "update", u["doc"]); self.opname(e, "update", u, k, "_up%d" % n)
        self.pair(e, "config-update-fields", bool(u["crq"] or u["mrq"]))
        for m in ("crq", "mrq"):
            self.pair(e, "config-update-" + m, bool(u[m]))
            def one(x, f):
                for a in ("field", "op", "mod"): self.text(x, "config-uref-" + a, f[a]); self.attr(x, "config-uref-%s-value" % a, "value", f[a])
            self.list(e, "config-update-" + m, u[m], one)
        self.roles(e, "update", u["rolemap"]); self.cb("update", e, u)
    def query(self, e, q, n, k="queries"):
        self.doc(e, "query", q["doc"]); self.opname(e, "query", q, k, "_q%d" % n); self.text(e, "config-query-type", q["type"])
        for m, c in (("sntq", "sent"), ("ordq", "ord")):
            self.pair(e, "config-query-" + m, bool(q[m]))
            def one(x, f):
                for a in ("fname", "op"): self.text(x, "config-%s-%s" % (c, a), f[a]); self.attr(x, "config-%s-%s-value" % (c, a), "value", f[a])
            self.list(e, "config-query-" + m, q[m], one)
        for m in ("limit", "offset"):
            self.pair(e, "config-query-" + m, q[m] != "0"); self.text(e, "config-query-" + m, q[m]); self.attr(e, "config-query-%s-value" % m, "value", q[m])
        self.pair(e, "config-query-limoffs", (q["limit"], q["offset"]) != ("0", "0"))
        self.pair(e, "config-query-dst", q["dst"] is not None)
        if q["dst"]: self.text(e, "config-query-dst-fname", q["dst"]["fname"])
        both = q["aggr"] is not None and q["group"] is not None
        self.pair(e, "config-query-aggr", both)
        if both:
            self.text(e, "config-query-aggr-op", q["aggr"]["op"]); self.text(e, "config-query-aggr-fname", q["aggr"]["fname"]); self.text(e, "config-query-group-fname", q["group"]["fname"])
        self.roles(e, "query", q["rolemap"]); self.cb("query", e, q)
    def fieldset(self, e, s, ex):
        fs = [s["fq"][n] for n in sorted(s["fq"]) if n not in (ex or [])]
        self.ref(e, "config-fields-name", self.p["strcts"] + "strcts/" + s["name"] + "/fields")
        self.pair(e, "config-fields", bool(fs)); self.list(e, "config-fields", fs, self.field)
    def field(self, e, f):
        S = self.p["strcts"] + "strcts/"; c = "config-field-"; t = f["type"]
        self.doc(e, "field", f["doc"]); self.name(e, "field", f["name"], S + f["parent"] + "/fields/" + f["name"], True)
        self.attr(e, c + "fullname-data", "data-fullname", f["parent"] + "." + f["name"])
        for x in ("rowid", "null", "unique", "noexport"):
            for y in elems(e, c + "flag-%s-set" % x, True):
                if x in f["flags"]: y["attrs"]["checked"] = "checked"
                else: y["attrs"].pop("checked", None)
                self.l.add("checked")
        self.pair(e, c + "flags", bool(f["flags"])); self.text(e, c + "flags-join", ",".join(f["flags"]))
        for x in TYPES: self.show(e, c + "type-" + x, x == t)
        self.text(e, c + "type", t); self.show(e, c + "store-type", t != "struct")
        for k in ("actup", "actdel"):
            for x in ACTS: self.show(e, c + k + "-" + x, x == f[k])
            self.text(e, c + k, f[k])
        r = f.get("ref")
        self.pair(e, c + "ref", r is not None); self.pair(e, c + "fkey", r is not None and t != "struct")
        if r:
            for k in ("target", "source"):
                self.text(e, c + "ref-%s-strct" % k, r[k]["strct"]); self.ref(e, c + "ref-%s-strct" % k, S + r[k]["strct"], "link")
                self.text(e, c + "ref-%s-field" % k, r[k]["field"]); self.ref(e, c + "ref-%s-field" % k, S + r[k]["strct"] + "/fields/" + r[k]["field"], "link")
        for k, p in (("bitf", "bitfs"), ("enm", "enums")):
            n = f.get(k)
            self.pair(e, c + k, n is not None); self.text(e, c + k, n or "")
            if n is not None: self.ref(e, c + k, self.p[p] + p + "/" + n, "link")
        self.roles(e, "field", f["rolemap"])
        self.pair(e, c + "def", f["def"] is not None)
        if f["def"] is not None: self.text(e, c + "def", f["def"]); self.attr(e, c + "def-value", "value", f["def"])
        self.pair(e, c + "limits", bool(f["fvq"]))
        if f["fvq"]:
            k = {"real": "real", "email": "string", "text": "string", "enum": "enum"}.get(t, None if t in ("blob", "password") else "number")
            for x in ("number", "real", "string", "enum"): self.show(e, c + "limit-" + x, x == k)
            self.text(e, c + "limit", ", ".join("%s %s" % (v["type"], v["limit"]) for v in f["fvq"]))
        self.cb("field", e, f)

# ------------------------------------------------------------- the generator
class Tree:
    def __init__(self, r, empty, nolim): self.r = r; self.n = 0; self.empty = empty; self.nolim = nolim; self.budget = r.choice([25, 60, 120])
    def e(self, tag, cls=(), attrs=None, kids=()):
        a = dict(attrs or {}); a["data-i"] = str(self.n); self.n += 1; self.budget -= 1
        return E(tag, cls, a, kids)
    def t(self): return self.r.choice(["old", "", " ", "(none)", "x < y"])
    def attrs(self, scope, cls, n):
        """Some classes which set attributes, each a different one."""
        have = set()
        for _ in range(n):
            c = self.pick(scope, "attrs")
            if c:
                a = CTX[c[0]]["attrs"][c[1]]
                if a not in have: have.add(a); cls.append(c[1])
    def pick(self, scope, what):
        r = self.r
        k = scope[-1] if r.random() < .8 else r.choice(scope)
        o = CTX[k][what]
        return (k, r.choice(list(o))) if o else None
    def junk(self): return self.r.choice([[], [], [], ["other"], ["config"], ["config-field-name-x"], ["config-strct"], ["config-nosuch-doc"]])
    def node(self, scope, depth):
        r = self.r; c = CTX[scope[-1]]
        k = r.random()
        if c["lists"] and self.budget > 0 and k < (.75 if len(scope) < 3 else .5):
            cls = r.choice(list(c["lists"]))
            return self.lst(scope, cls, c["lists"][cls])
        if k < .55 or self.budget <= 0:
            x = self.pick(scope, "text"); l = [x[1]] if x else []
            if r.random() < .35: self.attrs(scope, l, r.randint(1, 2))
            return self.e(r.choice(["span", "b", "td"]), l + self.junk(), {"value": "old"} if r.random() < .1 else None, [self.t()] + ([self.e("i", [], None, ["it"])] if r.random() < .15 else []))
        if k < .75:
            x = self.pick(scope, "show"); l = [x[1]] if x else []
            if self.nolim and l and l[0] in ["config-field-limit-" + y for y in ("number", "real", "string", "enum")]: l = []
            if r.random() < .4: l.append("hide")
            if r.random() < .3: self.attrs(scope, l, 1)
            return self.e("div", l + self.junk(), None, self.kids(scope, depth + 1, 2) if r.random() < .5 and depth < 3 else [self.t()])
        if k < .8 and "field" in scope:
            return self.e("input", [r.choice(CTX["field"]["checked"])], {"type": "checkbox", "checked": "checked"} if r.random() < .5 else {"type": "checkbox"})
        if k < .92:
            l = []; self.attrs(scope, l, r.randint(1, 3))
            return self.e(r.choice(["a", "input", "a", "div"]), l + self.junk(), {"href": "#old"} if r.random() < .2 else None, [])
        return self.e("div", self.junk(), None, self.kids(scope, depth + 1, 2) if depth < 3 else [])
    def lst(self, scope, cls, sub):
        r = self.r; l = [cls] + (["hide"] if r.random() < .4 and not self.empty else [])
        if r.random() < .3: self.attrs(scope, l, 1)
        if self.empty and r.random() < .2: return self.e("ul", l, None, [self.t()])
        return self.e(r.choice(["ul", "tbody", "div"]), l, None, ([self.t()] if r.random() < .3 else []) + [self.root(scope + [sub])] + ([self.e("li", [], None, ["second"])] if r.random() < .3 else []))
    def root(self, scope):
        r = self.r; l = []
        if r.random() < .4: self.attrs(scope, l, r.randint(1, 2))
        if r.random() < .2:
            x = self.pick(scope[-1:], "show")
            if x and not (self.nolim and "-limit-" in x[1] and not x[1].startswith("config-query")): l.append(x[1])
        if not l and r.random() < .15:
            x = self.pick(scope[-1:], "text")
            if x: return self.e("li", [x[1]], None, [self.t()])
        return self.e(r.choice(["li", "tr"]), l + self.junk(), None, self.kids(scope, 0, 7 if len(scope) < 4 else 5))
    def kids(self, scope, depth, n):
        r = self.r; o = []
        for _ in range(r.randint(1, n)):
            o.append(self.node(scope, depth))
            if r.random() < .15: o.append(self.t())
        return o

METHODS = {"fill": "all", "fillByClass": "all", "fillStrctSet": "strcts", "fillRoleSet": "roles", "fillEnumSet": "enums", "fillBitfSet": "bitfs", "fillStrctObj": "strct", "fillFieldSet": "strct", "fillFieldObj": "field",
           "fillEnumObj": "enum", "fillEnumItemObj": "enumitem", "fillBitfObj": "bitf", "fillBitIndexObj": "bitindex", "fillRoleObj": "role", "fillUpdateObj": "update", "fillSearchObj": "query"}
def scenario(r, nolim, two):
    m = r.choice(["fill"] * 5 + ["fillByClass"] * 3 + list(METHODS))
    n = r.choice([1, 1, 2, 3]) if not two else r.choice([2, 3])
    t = Tree(r, n == 1 and r.random() < .5, nolim)
    sc = [METHODS[m]]
    def area(extra=()):
        l = list(extra); t.attrs(sc, l, r.choice([0, 0, 1, 2]))
        a = t.e("div", l + (["hide"] if r.random() < .3 else []), {"id": "start"} if r.random() < .1 and not any(x.endswith("-id") for x in l) else None, t.kids(sc, 0, 9))
        if METHODS[m] == "all":
            for k in ("strcts", "roles", "enums", "bitfs"):
                if r.random() < .5: a["kids"].append(t.lst([r.choice(["all", k]), ], "config-" + k, {"strcts": "strct", "roles": "role", "enums": "enum", "bitfs": "bitf"}[k]))
        return a
    if m == "fillByClass":
        main = t.e("div", ["blk"] if r.random() < .3 else [], None, [area(["blk"]) for _ in range(r.randint(0, 2))] if r.random() < .7 else [])
        if "blk" in main["cls"]: main["kids"] = area()["kids"]
    else: main = area()
    tree = t.e("section", [], None, [main, t.e("aside", [], None, t.kids(sc, 0, 4))])
    calls = []
    for i in range(n):
        pre = None
        if r.random() < .6: pre = {k: r.choice(["", "", "a/", "docs.html-", k + "/"]) for k in ("strcts", "roles", "enums", "bitfs")}
        at = [0]
        if m in ("fill", "fillByClass") and r.random() < .15: at = r.choice([None, "start", "nosuch"]) if m == "fill" else r.choice(["start", "nosuch"])
        c = {"method": m, "doc": i % 2 if two else 0, "prefixes": pre, "at": at, "arg": r.choice([None, 5, "x", {"a": [1]}]), "pick": [r.random() for _ in range(3)], "exclude": None, "extra": [r.choice(["updates", "deletes"]), r.randint(0, 5)], "ex": r.random(),
             "cbs": r.choice([None, sorted(OWN), sorted(x for x in OWN if r.random() < .5)])}
        calls.append(c)
    return {"tree": tree, "calls": calls}

def choose(c, docs):
    """The object a direct call is for: its path in the document."""
    j = docs[c["doc"]]["config"]; p = c["pick"]; m = c["method"]
    def one(d, x): return sorted(d)[int(x * len(d))] if d else None
    def go(*ks):
        path = []; o = j
        for k, x in zip(ks, list(p) + [0]):
            for q in k: path.append(q); o = o[q]
            if not o: return None
            if isinstance(o, list): n = int(x * len(o))
            else: n = one(o, x)
            path.append(n); o = o[n]
        return path
    if m == "fillStrctObj" or m == "fillFieldSet": return go(["sq"])
    if m == "fillFieldObj": return go(["sq"], ["fq"])
    if m == "fillEnumObj": return go(["eq"])
    if m == "fillEnumItemObj": return go(["eq"], ["eq"])
    if m == "fillBitfObj": return go(["bq"])
    if m == "fillBitIndexObj": return go(["bq"], ["bq"])
    if m == "fillRoleObj": return go(["rq"]) if j["rq"] else None
    if m in ("fillUpdateObj", "fillSearchObj"):
        k = "sq" if m == "fillSearchObj" else "uq" if c["extra"][0] == "updates" else "dq"
        cand = [["sq", s, k, "named", n] for s in sorted(j["sq"]) for n in sorted(j["sq"][s][k]["named"])] + [["sq", s, k, "anon", n] for s in sorted(j["sq"]) for n in range(len(j["sq"][s][k]["anon"]))]
        return cand[int(p[0] * len(cand))] if cand else None
    return []

class C(Check):
    ID = "C30"
    RULE = ("generated configurations through ort-json; pages generated from the classes documented in ort-json.ts (lists in lists to every depth, outer classes within inner templates, unrelated classes, old contents) filled in by every public method, with and without prefixes, callbacks and their argument, by element, by name and by class, "
            "up to three times and alternately with two configurations, in the real code under node over a small document object model, and compared as a whole with an independent model of the documentation; callbacks' objects, argument and moment too; non-trivial: a page with a filled list of several objects, and with texts, attributes and parts shown or hidden")
    N = {"quick": 1500, "thorough": 80000}
    NS = 4
    ASSUME = ["a document object model written for this check replaces the browser's", "elements have at most one class replacing their contents and one setting each attribute", "the order between callbacks is not decided", "ort-json's document is taken as the configuration (C10 decides that)"]
    def gen(self, r, i):
        def cfg():
            return ortgen.gen(r, ortgen.Prof(structs=(1, 3), fields=(1, 6), comments=.4, exotic=r.choice([0, .3]), labels=.6, roles=.6))
        two = r.random() < .25
        a = cfg(); b = cfg() if two else None
        lim = any(f["limits"] and f["type"] in ("blob", "password") for c in (a, b) if c for s in c["structs"] for f in s["fields"])
        return {"cfg": a, "cfg2": b, "fills": [scenario(r, lim, two) for _ in range(self.NS)]}
    def reductions(self, case):
        F = case["fills"]
        if len(F) > 1:
            for x in F: yield dict(case, fills=[x])
        if len(F) == 1:
            q = F[0]
            if len(q["calls"]) > 1:
                for k in range(len(q["calls"])): yield dict(case, fills=[dict(q, calls=q["calls"][:k] + q["calls"][k + 1:])])
            def cut(path):
                t = copy.deepcopy(q["tree"]); e = t
                for k in path[:-1]: e = e["kids"][k]
                del e["kids"][path[-1]]; return t
            def walk(e, pre):
                for k, c in enumerate(e["kids"]):
                    if pre: yield pre + [k]
                    if isinstance(c, dict): yield from walk(c, pre + [k])
            for pth in list(walk(q["tree"], [])): yield dict(case, fills=[dict(q, tree=cut(pth))])
            for k, c in enumerate(q["calls"]):
                for x in ({"cbs": None}, {"prefixes": None}, {"arg": None}):
                    if any(c[a] is not b for a, b in x.items()): yield dict(case, fills=[dict(q, calls=q["calls"][:k] + [dict(c, **x)] + q["calls"][k + 1:])])
        if case["cfg2"] and all(c["doc"] == 0 for q in F for c in q["calls"]): yield dict(case, cfg2=None)
        yield from super().reductions(case)
    def run(self, ctx, case):
        docs = []
        for n, cfg in enumerate([case["cfg"]] + ([case["cfg2"]] if case["cfg2"] else [])):
            f = ctx.cfg(cfg, "a%d.ort" % n)
            if ctx.tool("ort", f).rc: raise Skip("refused")
            docs.append(json.loads(ctx.ok("ort-json", f).text))
        labels = []
        for q in case["fills"]:
            tree = copy.deepcopy(q["tree"]); log = []; l = set(); calls = []
            for c in q["calls"]:
                path = choose(c, docs)
                if path is None: l.add("nothing of that kind"); continue
                j = docs[c["doc"]]["config"]; x = j
                for k in path: x = x[k]
                ex = None
                if c["ex"] < .5:
                    src = sorted(j["rq"] or {}) if c["method"] == "fillRoleSet" else sorted(x["fq"]) if c["method"] == "fillFieldSet" else []
                    ex = [n for k, n in enumerate(src) if (k * 7 + int(c["ex"] * 97)) % 3 == 0] + ["nosuch"]
                    if c["ex"] < .05: ex = src
                c = dict(c, obj=path, exclude=ex); calls.append(c)
                P = Page(j, c["prefixes"], c["cbs"], c["arg"], log, l); m = c["method"]
                def find(at):
                    if at is None: return None
                    if isinstance(at, str): return next((y for y in below(tree) if y["attrs"].get("id") == at), None)
                    y = tree
                    for k in at: y = y["kids"][k]
                    return y
                e = find(c["at"])
                if e is None: l.add("no such element"); continue
                if m == "fill": P.fill(e)
                elif m == "fillByClass":
                    for y in elems(e, "blk", True): P.fill(y)
                elif m == "fillRoleSet": P.roleset(e, ex)
                elif m == "fillFieldSet": P.fieldset(e, x, ex)
                elif m == "fillUpdateObj": P.update(e, x, c["extra"][1], c["extra"][0])
                elif m == "fillSearchObj": P.query(e, x, c["extra"][1])
                else: {"fillStrctSet": P.strctset, "fillEnumSet": P.enumset, "fillBitfSet": P.bitfset}.get(m, lambda e: {"fillStrctObj": P.strct, "fillFieldObj": P.field, "fillEnumObj": P.enum, "fillEnumItemObj": P.eitem, "fillBitfObj": P.bitf, "fillBitIndexObj": P.bitem, "fillRoleObj": P.role}[m](e, x))(e)
                l.add(m)
            if len(calls) > 1: l.add("filled again")
            a = ask({"cmd": "docfill", "lib": os.path.join(ctx.dirs["plain"], "ort-json.ts"), "docs": docs, "tree": q["tree"], "calls": calls, "own": OWN})
            what = lambda: json.dumps([{k: v for k, v in c.items() if k not in ("pick", "ex")} for c in calls]) + "\n" + html(q["tree"])
            if "err" in a: raise Bad("page: exception", a["err"] + "\n" + what())
            g, w = norm(a["tree"]), norm(tree)
            if g != w: raise Bad("page: contents", "%s\n%s" % (diff(w, g, []), what()))
            G = sorted(([k, n, p, arg, sorted(([o[0]] + self.mine(OWN[k], q["tree"], o) for o in own), key=str)] for k, n, p, arg, own in a["log"]), key=str)
            W = sorted(([k, n, p, arg, sorted(([o[0]] + self.mine(OWN[k], q["tree"], [o[0], o[1], o[2], o[3], o[4]]) for o in own), key=str)] for k, n, p, arg, own in log), key=str)
            if G != W:
                k = next(k for k in range(max(len(G), len(W))) if G[k:k + 1] != W[k:k + 1])
                raise Bad("page: callbacks", "expected %s\ngot      %s\n%s" % (json.dumps(W[k:k + 1]), json.dumps(G[k:k + 1]), what()))
            labels += sorted(l)
            if {"text", "attribute", "shown or hidden", "list of several"} <= l: labels.append("rich")
        return labels
    def mine(self, k, tree, o):
        """Of an element given to a callback, only what its own classes are about."""
        x = next((y for y in below(tree) if y["attrs"].get("data-i") == o[0]), None)
        if x is None: return o[1:]
        return Page.own("config-%s-" % k, x["cls"], o[1] or "", {"value": o[2], "href": o[3], "id": o[4]})
    def nontrivial(self, l): return "rich" in l
    def sample(self, case):
        return {"cfg": ortgen.pretty(case["cfg"]), "calls": [{k: v for k, v in c.items() if k not in ("pick", "ex")} for c in case["fills"][0]["calls"]], "page": html(case["fills"][0]["tree"])[:1500]}
if __name__ == "__main__": main(C)
