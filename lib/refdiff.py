"""Reference for ort-diff(1): which objects of two models differ, and where they are written."""
import ortgen, model
from ortgen import *

def layout(cfg):
    """Text with one statement per line, and the line of each object."""
    out = []; pos = {}; line = [1]
    def emit(toks):
        s = " ".join(toks); at = line[0]
        out.append(s); line[0] += s.count("\n") + 1
        return at
    for kind, toks in toplevel(cfg, Style()):
        stm = []; cur = []; depth = 0
        for x in toks:
            cur.append(x)
            if x in "{;" and len(x) == 1 or x == "}" and False:
                stm.append(cur); cur = []
        if cur: stm.append(cur)
        k, _, top = kind.partition(" ")
        cnt = {}
        if k == "roles":
            first = True
            for st in stm:
                at = emit(st)
                if first: pos["roles",] = at; first = False; continue
                w = [x for x in st if x != "}"]
                if w and w[0] == "role": pos["role", w[1]] = at
            continue
        inroles = False
        for i, st in enumerate(stm):
            at = emit(st)
            if i == 0: pos[k, top] = at; continue
            if st[0] == "}": inroles = False; continue
            if inroles: continue
            if st[0] == "roles" and st[-1] == "{": inroles = True; continue
            if k in ("enum", "bits"):
                if st[0] == "item": pos[k, top, st[1]] = at
            else:
                w = "query" if st[0] in QTYPES else st[0]
                n = cnt.get(w, 0); cnt[w] = n + 1
                if w == "field": pos["field", top, st[1]] = at
                elif w in ("query", "update", "delete", "unique", "insert"): pos[w, top, n] = at
    return "\n".join(out) + "\n", pos

def labs(l): return sorted(map(tuple, l))
def sig_field(cfg, s, f):
    F = fdict(s); ref = None
    if f["ref"]: ref = (f["name"], f["ref"][0], f["ref"][1])
    if f["type"] == "struct": ref = (f["src"], F[f["src"]]["ref"][0], F[f["src"]]["ref"][1])
    ty = f["type"]
    d = {"type": ty, "flags": (f["null"], f["unique"], f["rowid"], f["noexport"], f["default"] is not None), "comment": f["comment"],
         "actions": (f["actdel"] or "none", f["actup"] or "none"), "ref": ref,
         "valids": sorted((op, model.limval(f, v)) for op, v in f["limits"]),
         "rolemap": model.noexport_roles(cfg, s, f["name"]) , "enum": f["enum"], "bitf": f["bits"],
         "def": None if f["default"] is None else (f["default"][1], f["enum"]) if f["default"][0] == "ident" else f["default"][1] if f["default"][0] == "str" else model.defval(cfg, f)}
    if f["default"] is not None and f["default"][0] == "str": d["def"] = f["default"][1]
    return d
def mod_field(a, b):
    m = []
    for k in ("type", "flags", "comment", "actions", "ref", "rolemap"):
        if a[k] != b[k]: m.append(k)
    for k in ("enum", "bitf"):
        if a[k] and b[k] and a[k] != b[k]: m.append(k)
    if a["type"] != b["type"]:
        if a["valids"] or b["valids"]: m.append("valids")
    elif a["valids"] != b["valids"]: m.append("valids")
    if a["type"] == b["type"] and a["flags"][4] and b["flags"][4] and a["def"] != b["def"]: m.append("def")
    return m
def sig_query(cfg, s, q):
    rm = model.oproles(cfg, s, q["type"], q["name"])
    p = lambda x: ".".join(x)
    return {"params": [(p(a), o) for a, o in q["terms"]], "order": [(p(a), d or "asc") for a, d in q["order"]], "aggr": q["aggr"] and (q["aggr"][0], p(q["aggr"][1])),
            "group": q["group"] and p(q["group"]), "distinct": q["distinct"] and p(q["distinct"]), "comment": q["comment"], "limit": q["limit"] or 0, "offset": q["offset"] or 0, "rolemap": rm}
def sig_update(cfg, s, u, kind):
    d = {"comment": u["comment"], "rolemap": model.oproles(cfg, s, kind, u["name"])}
    mods = model.updmods(s, u) if kind == "update" else []
    d["params"] = (mods, [tuple(x) for x in u["cons"]])
    d["flags"] = kind == "update" and not u["mods"]
    return d
def diffkeys(a, b): return [k for k in a if a[k] != b[k]]

def expected(A, pa, na, B, pb, nb):
    """Set of expected lines (without columns), empty when nothing differs."""
    def at(n, p, k): return "%s:%d" % (n, p[k])
    def fa(k): return at(na, pa, k)
    def fb(k): return at(nb, pb, k)
    out = []
    def pair(lab, ka, kb, ch): return ("@@ %s %s -> %s @@" if ch else "%s %s -> %s") % (lab, fa(ka), fb(kb))
    def mods(lab, ka, kb, ms): return ["! %s %s %s -> %s" % (lab, m, fa(ka), fb(kb)) for m in ms]
    def section(title, lines, changed):
        if changed: out.append("@@ %s @@" % title); out.extend(lines)
    # roles
    if A["roles"] is None and B["roles"] is not None: section("roles", ["+ roles " + fb(("roles",))], True)
    elif A["roles"] is not None and B["roles"] is None: section("roles", ["- roles " + fa(("roles",))], True)
    elif A["roles"] is not None:
        def flat(c):
            d = {}
            def w(rs, par):
                for x in rs: d[x["name"]] = {"comment": x["comment"], "parent": par, "children": {y["name"] for y in x["subs"]}}; w(x["subs"], x["name"])
            w(c["roles"], "all"); return d
        ra, rb = flat(A), flat(B); L = []; ch = False
        for n in ra:
            if n not in rb: L.append("- role " + fa(("role", n))); ch = True
            else:
                m = diffkeys(ra[n], rb[n]); ch |= bool(m)
                L.append(pair("role", ("role", n), ("role", n), m)); L += mods("role", ("role", n), ("role", n), m)
        for n in rb:
            if n not in ra: L.append("+ role " + fb(("role", n))); ch = True
        section("roles", [pair("roles", ("roles",), ("roles",), ch)] + L, ch)
    # enumerations, bit-fields
    for k, kk, lab, ilab, title in (("enums", "enum", "enm", "eitem", "enumerations"), ("bits", "bits", "bitf", "bitidx", "bitfields")):
        L = []; ch = False
        ea = {e["name"]: e for e in A[k]}; eb = {e["name"]: e for e in B[k]}
        for n in ea:
            if n not in eb: L.append("- %s %s" % (lab, fa((kk, n)))); ch = True
        for n in eb:
            if n not in ea: L.append("+ %s %s" % (lab, fb((kk, n)))); ch = True; continue
            x, y = ea[n], eb[n]; S = []; m = []
            va = enumvals(x) if k == "enums" else {i["name"]: i["value"] for i in x["items"]}
            vb = enumvals(y) if k == "enums" else {i["name"]: i["value"] for i in y["items"]}
            if x["comment"] != y["comment"]: m.append("comment")
            if labs(x["isnull"]) != labs(y["isnull"]) or labs(x.get("isunset", [])) != labs(y.get("isunset", [])): m.append("labels")
            ia = {i["name"]: i for i in x["items"]}; ib = {i["name"]: i for i in y["items"]}; sub = False
            for i in ia:
                if i not in ib: S.append("- %s %s" % (ilab, fa((kk, n, i)))); sub = True
            for i in ib:
                if i not in ia: S.append("+ %s %s" % (ilab, fb((kk, n, i)))); sub = True; continue
                mm = [z for z, c in (("value", va[i] != vb[i]), ("comment", ia[i]["comment"] != ib[i]["comment"]), ("labels", labs(ia[i]["labels"]) != labs(ib[i]["labels"]))) if c]
                S.append(pair(ilab, (kk, n, i), (kk, n, i), mm)); S += mods(ilab, (kk, n, i), (kk, n, i), mm); sub |= bool(mm)
            c = bool(m) or sub; ch |= c
            L.append(pair(lab, (kk, n), (kk, n), c))
            if c: L += S + mods(lab, (kk, n), (kk, n), m)
        section(title, L, ch)
    # structures
    L = []; ch = False
    sa = sdict(A); sb = sdict(B)
    for n in sa:
        if n not in sb: L.append("- strct " + fa(("struct", n))); ch = True
    for n in sb:
        if n not in sa: L.append("+ strct " + fb(("struct", n))); ch = True; continue
        x, y = sa[n], sb[n]; S = []; c = False
        if x["comment"] != y["comment"]: S += mods("strct", ("struct", n), ("struct", n), ["comment"]); c = True
        Fa, Fb = fdict(x), fdict(y)
        for f in Fa:
            if f not in Fb: S.append("- field " + fa(("field", n, f))); c = True
        for f in Fb:
            if f not in Fa: S.append("+ field " + fb(("field", n, f))); c = True; continue
            m = mod_field(sig_field(A, x, Fa[f]), sig_field(B, y, Fb[f])); k = ("field", n, f)
            S.append(pair("field", k, k, m)); S += mods("field", k, k, m); c |= bool(m)
        if x["insert"] and y["insert"]:
            m = []
            if model.oproles(A, x, "insert", None) != model.oproles(B, y, "insert", None): m.append("rolemap")
            if [f["name"] for f in x["fields"]] != [f["name"] for f in y["fields"]]: m.append("params")
            k = ("insert", n, 0)
            if m: S.append(pair("insert", k, k, True)); S += mods("insert", k, k, m); c = True
        elif x["insert"]: S.append("- insert " + fa(("insert", n, 0))); c = True
        elif y["insert"]: S.append("+ insert " + fb(("insert", n, 0))); c = True
        for kind, key, lab in (("query", "queries", "search"), ("update", "updates", "update"), ("delete", "deletes", "update")):
            sig = (lambda cf, s, o: sig_query(cf, s, o)) if kind == "query" else (lambda cf, s, o, kind=kind: sig_update(cf, s, o, kind))
            nm = (lambda o: (o["type"], o["name"])) if kind == "query" else (lambda o: o["name"])
            ty = (lambda o: o["type"]) if kind == "query" else (lambda o: None)
            la = [(i, o, sig(A, x, o)) for i, o in enumerate(x[key])]; lb = [(i, o, sig(B, y, o)) for i, o in enumerate(y[key])]
            for i, o, g in la:
                if o["name"] is not None:
                    w = [(j, h) for j, q, h in lb if q["name"] is not None and nm(q) == nm(o)]
                    if not w: S.append("- %s %s" % (lab, fa((kind, n, i)))); c = True; continue
                    m = diffkeys(g, w[0][1]); ka, kb = (kind, n, i), (kind, n, w[0][0])
                    S.append(pair(lab, ka, kb, m)); S += mods(lab, ka, kb, m); c |= bool(m)
                else:
                    w = [j for j, q, h in lb if q["name"] is None and ty(q) == ty(o) and h == g]
                    if not w: S.append("- %s %s" % (lab, fa((kind, n, i)))); c = True
                    else: S.append(pair(lab, (kind, n, i), (kind, n, w[0]), False))
            for i, o, g in lb:
                if o["name"] is not None: hit = any(q["name"] is not None and nm(q) == nm(o) for j, q, h in la)
                else: hit = any(q["name"] is None and ty(q) == ty(o) and h == g for j, q, h in la)
                if not hit: S.append("+ %s %s" % (lab, fb((kind, n, i)))); c = True
        for i, u in enumerate(x["uniques"]):
            if not any(sorted(u) == sorted(v) for v in y["uniques"]): S.append("- unique " + fa(("unique", n, i))); c = True
        for i, u in enumerate(y["uniques"]):
            if not any(sorted(u) == sorted(v) for v in x["uniques"]): S.append("+ unique " + fb(("unique", n, i))); c = True
        L.append(pair("strct", ("struct", n), ("struct", n), c)); ch |= c
        if c: L += S
    section("strcts", L, ch)
    return out
