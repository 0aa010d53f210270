"""Random edits of a configuration model.  The result may break a rule: callers skip such cases."""
import copy
import ortgen
from ortgen import *

def pick(r, l): return r.choice(l) if l else None

def used_top(cfg): return {x["name"] for k in ("enums", "bits", "structs") for x in cfg[k]}
def newtop(r, cfg): return ident(r, used_top(cfg))

def roles_flat(cfg):
    out = []
    def w(rs, depth):
        for x in rs: out.append((rs, x, depth)); w(x["subs"], depth + 1)
    if cfg["roles"] is not None: w(cfg["roles"], 0)
    return out

def rename_role(cfg, old, new):
    for rs, x, d in roles_flat(cfg):
        if x["name"] == old: x["name"] = new
    for s in cfg["structs"]:
        for rr in s["roles"]: rr["roles"] = [new if y == old else y for y in rr["roles"]]

def drop_role(cfg, name):
    for s in cfg["structs"]:
        for rr in s["roles"]: rr["roles"] = [y for y in rr["roles"] if y != name]
        s["roles"] = [rr for rr in s["roles"] if rr["roles"]]

# -------------------------------------------------- one function per edit
def e_top_comment(r, cfg, p):
    k = r.choice(["enums", "bits", "structs"]); x = pick(r, cfg[k])
    if x: x["comment"] = literal(r, p, 0, 10) if x["comment"] is None or r.random() < .5 else None
def e_enum(r, cfg, p):
    k = r.choice(["enums", "bits"])
    c = r.random()
    x = pick(r, cfg[k])
    if c < .3 or not x:
        n = newtop(r, cfg)
        cfg[k].append({"name": n, "comment": comment(r, p), "isnull": [], "isunset": [], "items": [{"name": ident(r), "value": r.randint(0, 63), "comment": None, "labels": []}]})
        if k == "enums": del cfg[k][-1]["isunset"]
        return
    if c < .5: cfg[k].remove(x); return
    if c < .6: x["isnull"] = labels(r, p, ["en", "fr"]); return
    if c < .65 and k == "bits": x["isunset"] = labels(r, p, ["en", "fr"]); return
    i = pick(r, x["items"])
    d = r.random()
    if d < .25:
        un = {y["name"] for y in x["items"]}
        x["items"].insert(r.randint(0, len(x["items"])), {"name": ident(r, un), "value": r.randint(0, 63) if k == "bits" or r.random() < .7 else None, "comment": comment(r, p), "labels": labels(r, p, ["en", "fr"])})
    elif d < .4 and len(x["items"]) > 1: x["items"].remove(i)
    elif d < .6: i["value"] = r.randint(0, 63) if k == "bits" or r.random() < .8 else None
    elif d < .7: i["comment"] = comment(r, p)
    elif d < .9: i["labels"] = labels(r, p, ["en", "fr", "de"])
    else: i["name"] = ident(r, {y["name"] for y in x["items"]})
def e_struct(r, cfg, p):
    if r.random() < .4 and len(cfg["structs"]) > 1:
        cfg["structs"].remove(r.choice(cfg["structs"]))
    else:
        q = Prof(**p.__dict__); q.structs = (1, 1); q.enums = q.bits = (0, 0); q.roles = 0
        c = gen(r, q); s = c["structs"][0]
        if s["name"] not in used_top(cfg): cfg["structs"].append(s)
def e_field(r, cfg, p):
    s = pick(r, cfg["structs"])
    if not s: return
    F = s["fields"]; f = pick(r, F); c = r.random()
    if c < .2 or not f:
        t = wchoice(r, p.types)
        if t == "enum" and not cfg["enums"] or t == "bits" and not cfg["bits"]: t = "int"
        F.insert(r.randint(0, len(F)), mkfield(r, p, cfg, ident(r, {x["name"] for x in F}, True), t)); return
    if c < .32 and len(F) > 1: F.remove(f); return
    if c < .38: r.shuffle(F); return
    if c < .42:
        old = f["name"]; new = ident(r, {x["name"] for x in F}); f["name"] = new; return
    if c < .5: f["comment"] = comment(r, p); return
    if f["type"] == "struct": return
    if c < .6:
        k = r.choice(["null", "unique", "noexport"])
        if not f["rowid"]: f[k] = not f[k]
    elif c < .65: f["rowid"] = not f["rowid"]
    elif c < .75 and not f["rowid"]: f["default"] = mkdefault(r, p, cfg, f) if r.random() < .7 else None
    elif c < .85 and not f["rowid"]:
        if r.random() < .3 and f["limits"]: r.shuffle(f["limits"])
        else: f["limits"] = mklimits(r, p, f["type"])
    elif c < .9 and not f["ref"] and not f["rowid"]:
        f["type"] = wchoice(r, {k: v for k, v in p.types.items() if k not in ("enum", "bits")}); f["default"] = None; f["limits"] = []; f["enum"] = f["bits"] = None
    elif c < .93 and f["type"] == "enum" and cfg["enums"]: f["enum"] = r.choice(cfg["enums"])["name"]; f["default"] = None
    elif c < .93 and f["type"] == "bits" and cfg["bits"]: f["bits"] = r.choice(cfg["bits"])["name"]
    elif c < .96 and f["ref"]: f[r.choice(["actdel", "actup"])] = r.choice(["restrict", "cascade", "none", None])
    elif f["ref"]:
        if not any(x["src"] == f["name"] for x in F): f["ref"] = None; f["actdel"] = f["actup"] = None
    elif f["type"] != "password":
        T = [(t["name"], g["name"]) for t in cfg["structs"] for g in t["fields"] if (g["rowid"] or g["unique"]) and g["type"] == f["type"] and g is not f]
        if T: f["ref"] = list(r.choice(T))
def e_query(r, cfg, p):
    s = pick(r, cfg["structs"])
    if not s: return
    q = pick(r, s["queries"]); c = r.random()
    qn = {x["name"] for x in s["queries"]}
    if not q or c < .2:
        x = mkquery(r, p, cfg, s, qn, set())
        if x: s["queries"].insert(r.randint(0, len(s["queries"])), x)
        return
    if c < .3: s["queries"].remove(q)
    elif c < .35: r.shuffle(s["queries"])
    elif c < .45: q["limit"] = r.choice([None, 1, 2, 3, 9]); q["offset"] = q["offset"] if q["limit"] is not None else None
    elif c < .5 and q["limit"] is not None: q["offset"] = r.choice([None, 1, 2, 3])
    elif c < .6: q["comment"] = comment(r, p)
    elif c < .65: q["name"] = ident(r, qn) if q["name"] is None or r.random() < .7 else None
    elif c < .72 and q["terms"]:
        t = r.choice(q["terms"]); t[1] = r.choice(["eq", "neq", "isnull", "notnull", "lt", "gt"])
    elif c < .78 and len(q["terms"]) > 1: r.shuffle(q["terms"])
    elif c < .82 and q["order"]: r.choice(q["order"])[1] = r.choice(["asc", "desc", None])
    elif c < .86 and q["order"]: q["order"].pop()
    elif c < .9: q["distinct"] = None if q["distinct"] else ["."]
    elif c < .94 and q["aggr"]:
        if r.random() < .5: q["aggr"][0] = "minrow" if q["aggr"][0] == "maxrow" else "maxrow"
        else: q["aggr"] = q["group"] = None
    else:
        old = s["queries"].index(q); x = mkquery(r, p, cfg, s, qn, set())
        if x: x["name"] = q["name"]; s["queries"][old] = x
def e_update(r, cfg, p):
    s = pick(r, cfg["structs"])
    if not s: return
    k = r.choice(["updates", "deletes"]); u = pick(r, s[k]); c = r.random()
    un = {x["name"] for x in s[k]}
    if not u or c < .25:
        x = mkupdate(r, p, s, k == "updates", un, set())
        if x: s[k].append(x)
        return
    if c < .4: s[k].remove(u)
    elif c < .45: r.shuffle(s[k])
    elif c < .55: u["comment"] = comment(r, p)
    elif c < .65: u["name"] = ident(r, un) if u["name"] is None or r.random() < .7 else None
    elif c < .75 and u["cons"]: r.choice(u["cons"])[1] = r.choice(["eq", "neq", "isnull", "lt"])
    elif c < .8: r.shuffle(u["cons"])
    elif c < .9 and u["mods"]: r.choice(u["mods"])[1] = r.choice(["set", None, "strset"])
    elif u["mods"]:
        if r.random() < .5: r.shuffle(u["mods"])
        else: u["mods"] = None
    elif k == "updates": u["mods"] = [[f["name"], None] for f in s["fields"] if f["type"] != "struct" and not f["rowid"]] or None
def e_misc(r, cfg, p):
    s = pick(r, cfg["structs"])
    if not s: return
    c = r.random()
    if c < .3: s["insert"] = not s["insert"]
    elif c < .5 and s["uniques"]: s["uniques"].pop(r.randrange(len(s["uniques"])))
    elif c < .6 and s["uniques"]: r.shuffle(r.choice(s["uniques"]))
    elif c < .7: r.shuffle(s["uniques"])
    else:
        real = [f["name"] for f in s["fields"] if f["type"] != "struct"]
        if len(real) >= 2:
            u = r.sample(real, r.randint(2, min(3, len(real))))
            if sorted(u) not in [sorted(x) for x in s["uniques"]]: s["uniques"].append(u)
def e_roles(r, cfg, p):
    R = roles_flat(cfg); c = r.random()
    if cfg["roles"] is None:
        if r.random() < .3: cfg["roles"] = []
        else: cfg["roles"] = [{"name": ident(r), "comment": None, "subs": []}]
        return
    if c < .1:
        cfg["roles"] = None
        for s in cfg["structs"]: s["roles"] = []
        return
    names = {x["name"] for _, x, _ in R}
    x = pick(r, R)
    if c < .25 or not x:
        l = cfg["roles"] if not x or r.random() < .5 else x[1]["subs"]
        l.insert(r.randint(0, len(l)), {"name": ident(r, names), "comment": comment(r, p), "subs": []})
    elif c < .35:
        for n in [x[1]["name"]] + [y["name"] for _, y, _ in roles_flat({"roles": x[1]["subs"]})]: drop_role(cfg, n)
        x[0].remove(x[1])
    elif c < .45: x[1]["comment"] = comment(r, p)
    elif c < .55:
        x[0].remove(x[1])
        R2 = roles_flat(cfg); y = pick(r, R2)
        (y[1]["subs"] if y and r.random() < .7 else cfg["roles"]).append(x[1])
    elif c < .6: rename_role(cfg, x[1]["name"], ident(r, names))
    elif c < .65: r.shuffle(x[0])
    else:
        s = pick(r, cfg["structs"])
        if not s: return
        d = r.random()
        if d < .3 or not s["roles"]: s["roles"] = mkroles(r, cfg, s)
        elif d < .5: s["roles"].pop(r.randrange(len(s["roles"])))
        elif d < .7: r.shuffle(s["roles"]); [r.shuffle(y["ops"]) for y in s["roles"]]; [r.shuffle(y["roles"]) for y in s["roles"]]
        else:
            rr = r.choice(s["roles"])
            if len(rr["ops"]) > 1: rr["ops"].pop(r.randrange(len(rr["ops"])))
def e_shuffle(r, cfg, p):
    for k in ("enums", "bits", "structs"): r.shuffle(cfg[k])
    if r.random() < .5:
        for e in cfg["enums"]:
            for i in e["items"]: r.shuffle(i["labels"])

def near_text(r, t):
    """Another text that is almost the same."""
    k = r.random()
    L = [i for i, c in enumerate(t) if c.isascii() and c.isalpha()]
    if k < .55 and L:
        i = r.choice(L); return t[:i] + t[i].swapcase() + t[i+1:]
    if k < .7 and len(t) > 1: return t[:-1] if t[-2] != "\\" and t[-1] not in '"\\' else t + "x"
    if k < .85: return t + r.choice("xX0 ")
    return r.choice("xX0") + t
def e_near(r, cfg, p):
    """The smallest change of one text or number, wherever it stands."""
    T = []      # (holder, key)
    def c(x):
        if x.get("comment"): T.append((x, "comment"))
    def lab(ls):
        for l in ls: T.append((l, 1) if isinstance(l, list) else None)
    for x in cfg["enums"] + cfg["bits"]:
        c(x); lab(x["isnull"]); lab(x.get("isunset", []))
        for i in x["items"]:
            c(i); lab(i["labels"])
            if i["value"] is not None: T.append((i, "value"))
    for s in cfg["structs"]:
        c(s)
        for f in s["fields"]:
            c(f)
            for l in f.get("limits", []):
                if isinstance(l, list): T.append((l, 1))
        for q in s["queries"]:
            c(q)
            for k in ("limit", "offset"):
                if q[k]: T += [(q, k)] * 2
        for u in s["updates"] + s["deletes"]: c(u)
    T = [t for t in T if t]
    if not T: return
    o, k = r.choice(T); v = o[k]
    if isinstance(v, str) and isinstance(o, list) and o[0] in LIMOPS and v.lstrip("-").replace(".", "", 1).isdigit():
        o[k] = str(int(v) + r.choice([-1, 1])) if "." not in v else v + "1"
    elif isinstance(v, str): o[k] = fixraw(near_text(r, v), 1 if isinstance(o, list) else 0)
    elif isinstance(v, int) and not isinstance(v, bool): o[k] = max(0, v + r.choice([-1, 1])) if v >= 0 else v + r.choice([-1, 1])
EDITS = [e_top_comment, e_enum, e_enum, e_struct, e_field, e_field, e_field, e_query, e_query, e_update, e_update, e_misc, e_roles, e_roles, e_shuffle, e_near, e_near, e_near]

def clean(cfg):
    """Drop role operations that name something that is not there any more."""
    for s in cfg["structs"]:
        ok = {"insert": s["insert"]}
        qn = {(q["type"], q["name"]) for q in s["queries"]}; un = {("update", u["name"]) for u in s["updates"]} | {("delete", u["name"]) for u in s["deletes"]}
        fn = {f["name"] for f in s["fields"]}
        def good(o):
            t, n = o
            if t == "all": return True
            if t == "insert": return s["insert"]
            if t == "noexport": return n is None or n in fn
            return n is not None and (t, n) in (qn | un)
        for rr in s["roles"]: rr["ops"] = [o for o in rr["ops"] if good(o)]
        s["roles"] = [rr for rr in s["roles"] if rr["ops"]]
    if cfg["roles"] is None:
        for s in cfg["structs"]: s["roles"] = []

def edit(r, cfg, p, n):
    c = copy.deepcopy(cfg)
    for _ in range(n): r.choice(EDITS)(r, c, p)
    clean(c)
    return c
