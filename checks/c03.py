import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from h import *
import re
import model as M
from ortgen import rawval

def labelset(ls): return {(l or "_default"): rawval(t) for l, t in ls}

def expected(cfg):
    par = M.parents(cfg)
    o = {"enums": {}, "bits": {}, "structs": {}, "roles": None}
    if cfg["roles"] is not None and par:
        R = {}; doc = {"all": None, "default": None, "none": None}; subs = {"all": [x["name"] for x in cfg["roles"]], "default": [], "none": []}
        def w(rs):
            for x in rs: doc[x["name"]] = rawval(x["comment"]); subs[x["name"]] = [y["name"] for y in x["subs"]]; w(x["subs"])
        w(cfg["roles"])
        o["roles"] = {k: (par[k], doc[k], subs[k]) for k in par}
    for e in cfg["enums"]:
        o["enums"][e["name"]] = {"doc": rawval(e["comment"]), "null": labelset(e["isnull"]),
            "items": [(i["name"], i["value"], rawval(i["comment"]), labelset(i["labels"])) for i in e["items"]]}
    for b in cfg["bits"]:
        o["bits"][b["name"]] = {"doc": rawval(b["comment"]), "null": labelset(b["isnull"]), "unset": labelset(b["isunset"]),
            "items": [(i["name"], i["value"], 1 << i["value"], rawval(i["comment"]), labelset(i["labels"])) for i in b["items"]]}
    rl = lambda s: sorted(s) if cfg["roles"] is not None else sorted(s)
    for s in cfg["structs"]:
        F = M.fdict(s)
        d = {"doc": rawval(s["comment"]), "fields": [], "insert": s["insert"] and rl(M.oproles(cfg, s, "insert", None)),
             "uniques": sorted(sorted(u) for u in s["uniques"]), "queries": [], "updates": [], "deletes": []}
        for f in s["fields"]:
            src = F[f["src"]] if f["type"] == "struct" else f
            ref = src["ref"] and {"t": list(src["ref"]), "s": [s["name"], src["name"]]}
            null = src["null"]
            dv = f["default"] and (f["default"][1] if f["default"][0] == "ident" else M.defval(cfg, f))
            d["fields"].append({"name": f["name"], "type": {"bits": "bitfield"}.get(f["type"], f["type"]), "doc": rawval(f["comment"]), "ref": ref,
                "flags": sorted(k for k in ("rowid", "unique", "noexport") if f[k]) + (["null"] if f["null"] else []),
                "enm": f["enum"], "bitf": f["bits"], "def": dv, "actdel": f["actdel"] or "none", "actup": f["actup"] or "none",
                "limits": [(a, M.limval(f, b)) for a, b in f["limits"]], "roles": rl(M.noexport_roles(cfg, s, f["name"]))})
        chain = lambda p: ["%s.%s" % (a["name"], b["name"]) for a, b in M.walk(cfg, s, p)]
        for q in s["queries"]:
            dst = None
            if q["distinct"]:
                dst = (".".join(q["distinct"]) if q["distinct"] != ["."] else ".", s["name"] if q["distinct"] == ["."] else M.target(cfg, *M.walk(cfg, s, q["distinct"])[-1])["name"])
            d["queries"].append((q["type"], q["name"], rawval(q["comment"]), rl(M.oproles(cfg, s, q["type"], q["name"])), q["limit"] or 0, q["offset"] or 0,
                [(".".join(p), op, chain(p)) for p, op in q["terms"]], [(".".join(p), o or "asc", chain(p)) for p, o in q["order"]],
                q["group"] and ".".join(q["group"]), q["aggr"] and (q["aggr"][0], ".".join(q["aggr"][1])), dst))
        for k, t in (("updates", "update"), ("deletes", "delete")):
            for u in s[k]:
                d[k].append((t, u["name"], rawval(u["comment"]), rl(M.oproles(cfg, s, t, u["name"])), t == "update" and not u["mods"],
                    M.updmods(s, u) if t == "update" else [], [tuple(c) for c in u["cons"]]))
        o["structs"][s["name"]] = d
    return o

def observed(j, cfg):
    j = j["config"]
    o = {"enums": {}, "bits": {}, "structs": {}, "roles": None}
    ls = lambda d: {k: v["value"] for k, v in d.items()}
    if j["rq"] is not None: o["roles"] = {k: (v["parent"], v["doc"], v["subrq"]) for k, v in j["rq"].items()}
    num = lambda x: None if x is None else int(x)
    for k, e in j["eq"].items():
        o["enums"][k] = {"doc": e["doc"], "null": ls(e["labelsNull"]), "items": [(n, num(i["value"]), i["doc"], ls(i["labels"])) for n, i in e["eq"].items()]}
    for k, b in j["bq"].items():
        o["bits"][k] = {"doc": b["doc"], "null": ls(b["labelsNull"]), "unset": ls(b["labelsUnset"]),
            "items": [(n, int(i["value"]), int(i["mask"]), i["doc"], ls(i["labels"])) for n, i in b["bq"].items()]}
    for k, s in j["sq"].items():
        if k != s["name"]: raise Bad("structure key and name differ")
        d = {"doc": s["doc"], "fields": [], "insert": s["insert"] is not None and sorted(s["insert"]["rolemap"]),
             "uniques": sorted(sorted(u["nq"]) for u in s["nq"]), "queries": [], "updates": [], "deletes": []}
        for n, f in s["fq"].items():
            t = f["type"]; dv = f["def"]
            if dv is not None: dv = float(dv) if t == "real" else dv if t in ("text", "email", "enum") else int(dv)
            r = f.get("ref")
            d["fields"].append({"name": n, "type": t, "doc": f["doc"], "ref": r and {"t": [r["target"]["strct"], r["target"]["field"]], "s": [r["source"]["strct"], r["source"]["field"]]},
                "flags": sorted(x for x in f["flags"] if x != "null") + (["null"] if "null" in f["flags"] else []), "enm": f.get("enm"), "bitf": f.get("bitf"), "def": dv,
                "actdel": f["actdel"], "actup": f["actup"], "limits": [(v["type"], float(v["limit"]) if t == "real" else int(v["limit"])) for v in f["fvq"]], "roles": sorted(f["rolemap"])})
            if f["name"] != n or f["parent"] != k: raise Bad("field name or parent wrong")
        for q in list(s["sq"]["named"].values()) + s["sq"]["anon"]:
            d["queries"].append((q["type"], q["name"], q["doc"], sorted(q["rolemap"]), int(q["limit"]), int(q["offset"]),
                [(t["fname"], t["op"], t["chain"]) for t in q["sntq"]], [(t["fname"], t["op"], t["chain"]) for t in q["ordq"]],
                q["group"] and q["group"]["fname"], q["aggr"] and (q["aggr"]["op"], q["aggr"]["fname"]), q["dst"] and (q["dst"]["fname"], q["dst"]["strct"])))
        for kk, key in (("updates", "uq"), ("deletes", "dq")):
            for u in list(s[key]["named"].values()) + s[key]["anon"]:
                d[kk].append((u["type"], u["name"], u["doc"], sorted(u["rolemap"]), "all" in u["flags"], [(m["field"], m["mod"]) for m in u["mrq"]], [(m["field"], m["op"]) for m in u["crq"]]))
        o["structs"][k] = d
    return o

def fix(o):
    """Order: named before unnamed, each in order of appearance, as the JSON groups them."""
    for d in o["structs"].values():
        for k in ("queries", "updates", "deletes"):
            d[k] = [x for x in d[k] if x[1] is not None] + [x for x in d[k] if x[1] is None]
    return o

def diff(a, b, p=""):
    if type(a) in (list, tuple) and type(b) in (list, tuple):
        if len(a) != len(b): return "%s: expected %r, got %r" % (p, a, b)
        for i, (x, y) in enumerate(zip(a, b)):
            r = diff(x, y, "%s[%d]" % (p, i))
            if r: return r
        return None
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b): return "%s: expected keys %r, got %r" % (p, sorted(a), sorted(b))
        for k in a:
            r = diff(a[k], b[k], p + "." + str(k))
            if r: return r
        return None
    return None if a == b and type(a) == type(b) or (a == b and isinstance(a, (int, float)) and not isinstance(a, bool)) else "%s: expected %r, got %r" % (p, a, b)

def squash(o, par):
    """Assigned roles as the set of roles that may act (the roles and their descendants)."""
    return o

class C(Check):
    ID = "C03"
    TZS = ["UTC", "UTC", "XXX8", "YYY-13:45", "EST5EDT,M3.2.0,M11.1.0", "UTC"]
    N = {"quick": 20000, "thorough": 100000}
    RULE = "random configurations in a random presentation, the ort-json document compared with the generating model in full; non-trivial: has an operation, default, limit, label, comment or role"
    def gen(self, r, i):
        return {"cfg": ortgen.gen(r, ortgen.Prof(exotic=r.choice([0, .3, .9]))), "style": r.randint(0, 2**32)}
    def run(self, ctx, case):
        ctx.tz = case.get("tz")
        st = ortgen.Style(random.Random(case["style"]), order=False)
        cfg = case["cfg"]
        f = ctx.cfg(cfg, "a.ort", st)
        a = ctx.ok("ort-json", f)
        try: j = json.loads(a.text)
        except ValueError as e: raise Bad("not JSON: %s" % e, a.text[:3000])
        x = fix(expected(cfg)); y = fix(observed(j, cfg))
        if x["roles"] is not None and y["roles"] is None and not cfg["roles"]: y["roles"] = x["roles"]
        if x["roles"] is None and y["roles"] is not None and set(y["roles"]) == {"all", "none", "default"}: y["roles"] = None
        d = diff(x, y)
        if d: raise Bad("model differs", d)
        if cfg["enums"]:
            # the JSON document has no values for automatic items: the header does
            h = ctx.ok("ort-c-header", f).text
            for e in cfg["enums"]:
                V = ortgen.enumvals(e)
                m = re.search(r"^enum\s+%s \{(.*?)^\};" % e["name"], h, re.M | re.S)
                if not m: raise Bad("enumeration missing in the header", e["name"])
                got = {a: int(b) for a, b in re.findall(r"^\s+%s_(\w+) = (-?\d+),?$" % e["name"].upper(), m.group(1), re.M)}
                if got != V: raise Bad("enumeration values differ", "%s: expected %r, got %r" % (e["name"], V, got))
        l = []
        for s in cfg["structs"]:
            for k in ("queries", "updates", "deletes", "uniques", "roles"):
                if s[k]: l.append(k)
            for q in s["fields"]:
                for k in ("default", "limits", "comment", "actdel", "actup", "ref"):
                    if q[k]: l.append(k + " " + q["type"])
        if cfg["roles"]: l.append("roleblock")
        return l
if __name__ == "__main__": main(C)
