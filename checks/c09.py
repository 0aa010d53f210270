import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from h import *
import model, refdiff, collections
from ortgen import sdict, fdict, rawval
MODN = {"concat": "cat"}
def qname(s, q):
    n = "db_%s_%s" % (s["name"], "get" if q["type"] == "search" else q["type"])
    if q["name"]: return n + "_" + q["name"]
    if q["terms"]: n += "_by" + "".join("_%s_%s" % ("_".join(p), o) for p, o in q["terms"])
    return n
def uname(s, u, kind):
    n = "db_%s_%s" % (s["name"], kind)
    if u["name"]: return n + "_" + u["name"]
    if kind == "update" and u["mods"]: n += "".join("_%s_%s" % (f, MODN.get(m or "set", m or "set")) for f, m in u["mods"])
    if u["cons"]: n += "_by" + "".join("_%s_%s" % (f, o) for f, o in u["cons"])
    return n
def audit(cfg, role):
    """What a role may do and see."""
    par = model.parents(cfg); S = sdict(cfg)
    has = lambda roles: any(model.isa(par, role, x) for x in roles)
    hidden = lambda s, f: f["noexport"] or has(model.noexport_roles(cfg, s, f["name"]))
    ops = []; reach = collections.OrderedDict()
    def closed(s):
        return any(t == "noexport" and n is None and has(rr["roles"]) for rr in s["roles"] for t, n in rr["ops"])
    def follow(s, origin, q, exp, path):
        exp = exp and not closed(s)
        reach.setdefault(s["name"], []).append((origin, q, exp, path))
        for f in s["fields"]:
            if f["type"] == "struct": follow(model.target(cfg, s, f), origin, q, exp and not hidden(s, f), path + [f["name"]])
    for s in cfg["structs"]:
        if s["insert"] and has(model.oproles(cfg, s, "insert", None)): ops.append(("insert", s, None, 0))
        for kind, l in (("update", s["updates"]), ("delete", s["deletes"])):
            for i, u in enumerate(l):
                if has(model.oproles(cfg, s, kind, u["name"])): ops.append((kind, s, u, i))
        for i, q in enumerate(s["queries"]):
            if has(model.oproles(cfg, s, q["type"], q["name"])):
                ops.append((q["type"], s, q, i))
                t = s
                if q["distinct"] and q["distinct"] != ["."]:
                    for _, f in [model.walk(cfg, s, q["distinct"])[-1]]: t = model.target(cfg, _, f)
                follow(t, (s, i), q, True, [])
    return ops, reach, hidden
class C(Check):
    ID = "C09"
    N = {"quick": 6000, "thorough": 300000}
    RULE = ("a generated configuration with a random role tree and assignments (several roles, all, default, noexport by field and structure, nested structures, distinct); for every role of it (and all, default and none) the lines of ort-audit(1) with and without -v, "
            "and the document of ort-audit-json(1), are compared with a reference closure over the role tree and structure graph; non-trivial: some role may do something that another may not, and some reachable structure or field is not exported to it")
    def gen(self, r, i):
        p = ortgen.Prof(roles=1, structs=(1, 5), exotic=.4, comments=.3, fields=(1, 4), null=.15, structref=.7, anon=.25, labels=.1, enums=(0, 1), bits=(0, 1))
        cfg = ortgen.gen(r, p)
        for s in cfg["structs"]:
            if r.random() < .7: s["roles"] += [x for x in ortgen.mkroles(r, cfg, s) if not any(set(x["roles"]) & set(y["roles"]) for y in s["roles"])]
            for f in s["fields"]:
                if f["noexport"] and r.random() < .5: f["noexport"] = False
        return {"cfg": cfg, "json": r.random() < .5, "all": r.random() < .15}
    def run(self, ctx, case):
        cfg = case["cfg"]
        text, pos = refdiff.layout(cfg)
        f = ctx.write("a.ort", text)
        if ctx.tool("ort", f).rc: raise Skip("refused")
        labels = []; sets = []
        roles = ["default", "all", "none"] + ortgen.allroles(cfg)
        hid = False
        for role in roles:
            ops, reach, hidden = audit(cfg, role)
            r = random.Random(role)
            rn = role if r.random() < .7 else role.upper()
            want = []
            for kind, s, o, i in ops:
                w = "query" if kind in ortgen.QTYPES else kind
                want.append((kind, s["name"] if kind == "insert" else "%s:%s" % (s["name"], o["name"] or "-"), pos[w, s["name"], i]))
            sets.append(frozenset(want))
            short = list(want); verb = list(want)
            for n, l in reach.items():
                e = lambda x: "readwrite" if x else "read"
                short.append((e(any(x[2] for x in l)), n, pos["struct", n]))
                for (s, i), q, exp, path in l: verb.append((e(exp), "%s:%s:%s:%s" % (n, q["type"], q["name"] or "-", ".".join(path) or "-"), pos["query", s["name"], i]))
                hid |= any(not x[2] for x in l)
            for args, w in (([], short), (["-v"], verb)):
                out = ctx.ok("ort-audit", *(args + ["-r", rn, "a.ort"])).text
                got = []
                for line in out.splitlines():
                    x = line.split()
                    if len(x) != 3 or not x[2].startswith("a.ort:"): raise Bad("malformed line", line)
                    got.append((x[0], x[1], int(x[2].split(":")[1])))
                if sorted(got) != sorted(w): raise Bad("audit is not that of the role", "role %s %s\nmissing: %s\nunexpected: %s\n%s" % (role, args, list((collections.Counter(w) - collections.Counter(got)).elements()), list((collections.Counter(got) - collections.Counter(w)).elements()), text))
            if case["json"]: hid |= self.json(ctx, cfg, role, rn, ops, reach, hidden, labels)
        if len(set(sets)) > 1: labels.append("differs")
        if hid: labels.append("hidden")
        b = ctx.tool("ort-audit", "-r", "nosuchrole", "a.ort")
        if b.rc == 0 or b.out: raise Bad("unknown role accepted", b.text)
        return labels
    def json(self, ctx, cfg, role, rn, ops, reach, hidden, labels):
        S = sdict(cfg); hid = False
        r = random.Random(role + "x"); sa = r.random() < .3
        t = ctx.ok("ort-audit-json", *((["-s"] if sa else []) + ["-r", rn, "a.ort"])).text
        if sa:
            a = "(function(root) {\n 'use strict';\n var audit = "; z = " };\n root.audit = audit;\n})(this);\n"
            if not t.startswith(a) or not t.endswith(z): raise Bad("script is not wrapped as documented", t[:200])
            t = t[len(a):-len(z)] + "}"
        try: d = json.loads(t, object_pairs_hook=self.nodup)
        except ValueError as e: raise Bad("not JSON", "%s\n%s" % (e, t))
        if d["role"] != role: raise Bad("role name", d["role"])
        comm = {}
        def w(rs):
            for x in rs: comm[x["name"]] = rawval(x["comment"]); w(x["subs"])
        w(cfg["roles"])
        if d["doc"] != comm.get(role): raise Bad("role documentation", d["doc"])
        fn = {}
        for kind, s, o, i in ops:
            n = "db_%s_insert" % s["name"] if kind == "insert" else uname(s, o, kind) if kind in ("update", "delete") else qname(s, o)
            fn[n] = {"doc": rawval(o["comment"]) if o else None, "type": "get" if kind == "search" else kind}
        if d["functions"] != fn: raise Bad("functions are not those of the role", "role %s\n got %s\nwant %s" % (role, d["functions"], fn))
        fields = {}
        for n in reach:
            for f in S[n]["fields"]:
                e = not hidden(S[n], f) and f["type"] != "password"; hid |= not e
                fields["%s.%s" % (n, f["name"])] = {"export": e, "doc": rawval(f["comment"])}
        if d["fields"] != fields: raise Bad("fields are not those reachable", "role %s\n got %s\nwant %s" % (role, d["fields"], fields))
        acc = {}
        for s in cfg["structs"]:
            a = {"insert": None, "update": [], "delete": [], "count": [], "get": [], "iterate": [], "list": []}
            for kind, t, o, i in ops:
                if t is not s: continue
                if kind == "insert": a["insert"] = "db_%s_insert" % s["name"]
                elif kind in ("update", "delete"): a[kind].append(uname(s, o, kind))
                else: a["get" if kind == "search" else kind].append(qname(s, o))
            if s["name"] in reach:
                a["exportable"] = any(x[2] for x in reach[s["name"]])
                a["data"] = sorted(f["name"] for f in s["fields"])
                a["accessfrom"] = sorted((qname(S[x[0][0]["name"]], x[1]), x[2], ".".join(x[3])) for x in reach[s["name"]])
            acc[s["name"]] = {k: sorted(v) if isinstance(v, list) else v for k, v in a.items()}
        got = {}
        for x in d["access"]:
            y = dict(x["access"])
            if "accessfrom" in y: y["accessfrom"] = [(z["function"], z["exporting"], z["path"]) for z in y["accessfrom"]]
            if x["name"] in got: raise Bad("structure listed twice", x["name"])
            got[x["name"]] = {k: sorted(v) if isinstance(v, list) else v for k, v in y.items()}
        if got != acc: raise Bad("access is not that of the role", "role %s\n got %s\nwant %s" % (role, got, acc))
        labels.append("json")
        return hid
    @staticmethod
    def nodup(pairs):
        d = {}
        for k, v in pairs:
            if k in d: raise ValueError("duplicate key " + k)
            d[k] = v
        return d
    def nontrivial(self, labels): return "differs" in labels and "hidden" in labels
if __name__ == "__main__": main(C)
