"""Rule-adjacent edits of a model: constructs drawn without regard to whether the rules allow them."""
from ortgen import *
import ortgen
OPS = ["eq", "neq", "lt", "gt", "le", "ge", "like", "and", "or", "streq", "strneq", "isnull", "notnull"]
MODS = ["set", "strset", "inc", "dec", "concat", None]
def paths(cfg, s, d=0):
    """Every path along structure fields, whatever the nullness, terminals included."""
    S = sdict(cfg); F = fdict(s); out = []
    for f in s["fields"]:
        out.append([f["name"]])
        if f["type"] == "struct" and d < 4:
            src = F.get(f["src"])
            if src and src["ref"] and src["ref"][0] in S: out += [[f["name"]] + p for p in paths(cfg, S[src["ref"][0]], d + 1)]
    return out
def apath(r, cfg, s):
    P = paths(cfg, s)
    k = r.random()
    if not P or k < .02: return ["zzz"]
    if k < .04: return r.choice(P) + ["zzz"]
    L = [p for p in P if len(p) > 1]
    return list(r.choice(L if L and r.random() < .5 else P))
def w_terms(r, cfg, p):
    s = r.choice(cfg["structs"])
    if not s["queries"]: return
    q = r.choice(s["queries"]); 
    for _ in range(r.choice([1, 1, 2, 3])):
        pa = apath(r, cfg, s)
        pw = [x for x in paths(cfg, s) if fieldat(cfg, s, x) and fieldat(cfg, s, x)["type"] == "password"]
        if pw and r.random() < .4: pa = r.choice(pw)
        t = [pa, r.choice(OPS)]
        if q["terms"] and r.random() < .5: q["terms"][r.randrange(len(q["terms"]))] = t
        else: q["terms"].append(t)
def fieldat(cfg, s, pa):
    S = sdict(cfg)
    for i, n in enumerate(pa):
        f = fdict(s).get(n)
        if not f: return None
        if i == len(pa) - 1: return f
        src = fdict(s).get(f["src"]) if f["type"] == "struct" else None
        if not src or not src["ref"] or src["ref"][0] not in S: return None
        s = S[src["ref"][0]]
def w_group(r, cfg, p):
    s = r.choice(cfg["structs"])
    if not s["queries"]: return
    q = r.choice(s["queries"]); q["distinct"] = None if r.random() < .8 else q["distinct"]
    q["group"] = apath(r, cfg, s); a = apath(r, cfg, s)
    if r.random() < .5:     # of the same depth
        L = [x for x in paths(cfg, s) if len(x) == len(q["group"])]
        if L: a = list(r.choice(L))
    q["aggr"] = [r.choice(["minrow", "maxrow"]), a]
    if r.random() < .05: q[r.choice(["group", "aggr"])] = None
def w_order(r, cfg, p):
    s = r.choice(cfg["structs"])
    if s["queries"]: r.choice(s["queries"])["order"] = [[apath(r, cfg, s), r.choice(["asc", "desc", None])] for _ in range(r.randint(1, 3))]
def w_distinct(r, cfg, p):
    s = r.choice(cfg["structs"])
    if s["queries"]:
        D = [x for x in paths(cfg, s) if (fieldat(cfg, s, x) or {}).get("type") == "struct"]
        r.choice(s["queries"])["distinct"] = list(r.choice(D)) if D and r.random() < .8 else apath(r, cfg, s)
def w_type(r, cfg, p):
    s = r.choice(cfg["structs"])
    if s["queries"]: r.choice(s["queries"])["type"] = r.choice(["search", "list", "iterate", "count"])
def w_update(r, cfg, p):
    s = r.choice(cfg["structs"]); N = [f["name"] for f in s["fields"]] + (["zzz"] if r.random() < .1 else [])
    if not N: return
    k = r.choice(["updates", "deletes"]); u = {"mods": None, "cons": [], "name": ident(r), "comment": None}
    if s[k] and r.random() < .5: u = r.choice(s[k])
    else: s[k].append(u)
    if k == "updates": u["mods"] = [[r.choice(N), r.choice(MODS)] for _ in range(r.randint(1, 3))]
    u["cons"] = [[r.choice(N), r.choice(OPS)] for _ in range(r.randint(0, 2))]
    if r.random() < .1: u["name"] = r.choice(s[k])["name"]
def w_ref(r, cfg, p):
    s = r.choice(cfg["structs"]); t = r.choice(cfg["structs"])
    if not t["fields"]: return
    g = r.choice(t["fields"]); f = mkfield(r, p, cfg, ident(r, set(fdict(s)), True), g["type"] if r.random() < .8 and g["type"] != "struct" else "int")
    f["ref"] = [t["name"], g["name"]]
    f["enum"], f["bits"] = g["enum"] if f["type"] == "enum" else None, g["bits"] if f["type"] == "bits" else None
    if f["type"] == "enum" and not f["enum"] or f["type"] == "bits" and not f["bits"]: return
    f["default"] = None if f["type"] == "enum" else f["default"]
    if r.random() < .5: f["actdel"] = r.choice(ACTS); f["actup"] = r.choice(ACTS)
    s["fields"].append(f)
    if r.random() < .6:
        g = mkfield(r, p, cfg, ident(r, set(fdict(s)), True), "struct"); g["src"] = r.choice([f["name"], r.choice(s["fields"])["name"]])
        s["fields"].insert(r.randint(0, len(s["fields"])), g)
def w_flags(r, cfg, p):
    s = r.choice(cfg["structs"])
    if not s["fields"]: return
    f = r.choice(s["fields"]); k = r.choice(["rowid", "null", "unique", "noexport", "act", "limit", "default"])
    if k in ("rowid", "null", "unique", "noexport"): f[k] = not f[k]
    elif k == "act": f[r.choice(["actdel", "actup"])] = r.choice(ACTS)
    elif k == "limit": f["limits"].append([r.choice(LIMOPS), r.choice(["0", "1", "-1", "3", "1.5", "64", "9223372036854775807"])])
    else: f["default"] = r.choice([["int", "1"], ["int", "-5"], ["real", "1.5"], ["str", "x"], ["date", "2000-02-31"], ["date", "1999-12-31"], ["ident", "zzz"], ["int", "9223372036854775807"]])
def w_unique(r, cfg, p):
    s = r.choice(cfg["structs"]); N = [f["name"] for f in s["fields"]]
    if not N: return
    if s["uniques"] and r.random() < .5: u = list(r.choice(s["uniques"])); r.shuffle(u)
    else: u = [r.choice(N) for _ in range(r.randint(1, 3))]
    if r.random() < .3 and u: u[-1] = r.choice(N)
    s["uniques"].insert(r.randint(0, len(s["uniques"])), u)
def w_enum(r, cfg, p):
    if not cfg["enums"]: return
    e = r.choice(cfg["enums"]); i = r.choice(e["items"]); V = [x["value"] for x in e["items"] if x["value"] is not None]
    i["value"] = r.choice([None, 0, -1, INT64_MAX, INT64_MAX - 1, INT64_MAX - 2, INT64_MAX - 3, -INT64_MAX, -INT64_MAX - 1] + V)
    if r.random() < .5: e["items"].append({"name": ident(r, {x["name"] for x in e["items"]}) if r.random() < .9 else i["name"], "value": None, "comment": None, "labels": []})
def w_bits(r, cfg, p):
    if not cfg["bits"]: return
    b = r.choice(cfg["bits"]); i = r.choice(b["items"]); i["value"] = r.choice([0, 62, 63, 64, -1, 2**32] + [x["value"] for x in b["items"]])
    if r.random() < .2: r.choice(b["items"])["name"] = i["name"]
def w_roles(r, cfg, p):
    names = allroles(cfg) + ["default", "all", "none"] + (["zzz"] if r.random() < .1 else [])
    s = r.choice(cfg["structs"]); ops = [["all", None], ["noexport", None], ["insert", None]]
    Q = [(q["type"], q["name"]) for q in s["queries"]] + [("update", u["name"]) for u in s["updates"]] + [("delete", u["name"]) for u in s["deletes"]] + [("noexport", f["name"]) for f in s["fields"]]
    for t, n in Q:
        if n is None: continue
        ops.append([t, n])
        if r.random() < .1: ops.append([r.choice(["search", "list", "iterate", "count", "update", "delete"]), n])
    s["roles"].insert(r.randint(0, len(s["roles"])), {"roles": [r.choice(names) for _ in range(r.choice([1, 1, 2, 3]))], "ops": [list(r.choice(ops)) for _ in range(r.randint(1, 3))]})
def w_rolename(r, cfg, p):
    if not cfg["roles"]: return
    L = []
    def w(rs):
        for x in rs: L.append(x); w(x["subs"])
    w(cfg["roles"]); x = r.choice(L)
    x["name"] = r.choice([r.choice(L)["name"], r.choice(L)["name"], "all", "none", "default", ident(r)])
def w_topname(r, cfg, p):
    L = [x for k in ("structs", "enums", "bits") for x in cfg[k]]; a = r.choice(L); n = r.choice(L)["name"]
    if r.random() < .3: a["name"] = n
    elif a.get("items"): a["items"][0]["name"] = r.choice(a["items"])["name"] if r.random() < .5 else r.choice(BAD + ["format"])
    elif a.get("fields"): a["fields"][0]["name"] = r.choice(a["fields"])["name"] if r.random() < .5 else r.choice(BAD)
def w_qname(r, cfg, p):
    s = r.choice(cfg["structs"])
    if len(s["queries"]) < 2: return
    a, b = r.sample(s["queries"], 2); a["name"] = b["name"]
    if r.random() < .3: a["type"] = b["type"]; a["terms"] = [list(t) for t in b["terms"]]
def w_group2(r, cfg, p):
    """Both columns legal on their own."""
    L = []
    for s in cfg["structs"]:
        C = [pa for pa, f in reachable(cfg, s) if not f["null"] and f["type"] not in ("password", "struct")]
        if len(C) > 1: L.append((s, C))
    D = [x for x in L if any(len(pa) > 1 for pa in x[1])]
    if not L: return
    s, C = r.choice(D or L)
    a = r.choice(C); B = [b for b in C if len(b) == len(a)] if r.random() < .6 else C
    q = {"type": r.choice(QTYPES), "terms": [], "name": ident(r, {q["name"] for q in s["queries"]}), "comment": None, "order": [], "limit": None, "offset": None, "group": a, "aggr": [r.choice(["minrow", "maxrow"]), r.choice(B)], "distinct": None}
    s["queries"].insert(r.randint(0, len(s["queries"])), q)
def w_group3(r, cfg, p):
    """Columns of different structures at the same depth: two structures are joined for it if need be."""
    if len(cfg["structs"]) < 3: return
    for _ in range(6):
        s, t, u = r.sample(cfg["structs"], 3); new = []
        def below(x, seen):
            if x in seen or x not in sdict(cfg): return seen
            seen.add(x)
            for f in sdict(cfg)[x]["fields"]:
                if f["type"] == "struct" and fdict(sdict(cfg)[x]).get(f["src"], {}).get("ref"): below(fdict(sdict(cfg)[x])[f["src"]]["ref"][0], seen)
            return seen
        if s["name"] in below(t["name"], set()) | below(u["name"], set()): continue
        for x in (t, u):
            K = [f for f in x["fields"] if f["type"] == "int" and (f["rowid"] or f["unique"])]
            if not K: break
            k = r.choice(K); un = set(fdict(s)) | {n["name"] for n in new}; f = mkfield(r, p, cfg, ident(r, un, True), "int")
            f["ref"] = [x["name"], k["name"]]; f["null"] = False; f["rowid"] = False; f["default"] = None; un.add(f["name"])
            g = mkfield(r, p, cfg, ident(r, un, True), "struct"); g["src"] = f["name"]; new += [f, g]
        if len(new) == 4: break
    else: return
    s["fields"] += new
    A, B = [[[g["name"], f["name"]] for f in x["fields"] if not f["null"] and f["type"] not in ("password", "struct")] for g, x in ((new[1], t), (new[3], u))]
    if not A or not B: return
    a, b = r.choice(A), r.choice(B if r.random() < .7 else A)
    if r.random() < .5: a, b = b, a
    q = {"type": r.choice(["search", "list", "iterate"]), "terms": [], "name": ident(r, {q["name"] for q in s["queries"]}), "comment": None, "order": [], "limit": None, "offset": None, "group": a, "aggr": [r.choice(["minrow", "maxrow"]), b], "distinct": None}
    s["queries"].insert(r.randint(0, len(s["queries"])), q)
def w_password(r, cfg, p):
    """Queries by one or several passwords, nested or not."""
    s = r.choice(cfg["structs"])
    for _ in range(r.choice([0, 1, 1, 2])): s["fields"].append(mkfield(r, p, cfg, ident(r, set(fdict(s)), True), "password"))
    L = [(s, [pa for pa, f in reachable(cfg, s) if f["type"] == "password"], [pa for pa, f in reachable(cfg, s) if f["type"] != "password"]) for s in cfg["structs"]]
    L = [x for x in L if x[1]]
    if not L: return
    s, P, O = r.choice(L)
    t = [[r.choice(P), r.choice(["eq", "neq", "streq", "strneq", "isnull", "notnull"] if r.random() < .9 else OPS)] for _ in range(r.choice([1, 2, 2, 3]))]
    if O and r.random() < .3: t.insert(r.randint(0, len(t)), [r.choice(O), r.choice(["eq", "neq", "isnull"])])
    q = {"type": r.choice(["count", "count", "search", "list", "iterate"]), "terms": t, "name": ident(r, {q["name"] for q in s["queries"]}), "comment": None, "order": [], "limit": None, "offset": None, "group": None, "aggr": None, "distinct": None}
    if r.random() < .3: q["distinct"] = ["."]
    if r.random() < .2: q["order"] = [[r.choice(P), None]]
    s["queries"].insert(r.randint(0, len(s["queries"])), q)
def w_deepnull(r, cfg, p):
    """A long path with one reference on the way, not the first, from a field that may be null."""
    C = []
    for s in cfg["structs"]:
        if s["queries"]: C += [(s, x) for x in paths(cfg, s) if len(x) > 2]
    if not C: return
    s, pa = r.choice(C); S = sdict(cfg); o = s; src = []
    for n in pa[:-1]:
        F = fdict(o); src.append(F[F[n]["src"]]); o = S[src[-1]["ref"][0]]
    if src[-1] is src[0]: return
    for f in src: f["null"] = False
    k = r.randrange(1, len(src)) if r.random() < .9 else 0
    if not src[k]["rowid"]: src[k]["null"] = True
    q = r.choice(s["queries"]); x = r.random()
    if x < .4: q["terms"].append([pa, r.choice(["eq", "notnull", "isnull", "lt"])])
    elif x < .8: q["order"] = [[pa, r.choice(["asc", "desc", None])]]
    elif x < .9: q["distinct"] = pa[:-1]; q["group"] = q["aggr"] = None
    else: q.update(group=pa, aggr=["maxrow", pa[:-1] + [r.choice([f["name"] for f in o["fields"]])]], distinct=None)
WILD = [w_deepnull, w_deepnull, w_group3, w_group2, w_group2, w_password, w_password, w_terms, w_terms, w_terms, w_group, w_group, w_order, w_distinct, w_type, w_update, w_update, w_ref, w_ref, w_flags, w_flags, w_unique, w_enum, w_bits, w_roles, w_roles, w_rolename, w_topname, w_qname]
