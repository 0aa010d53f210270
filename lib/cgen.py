"""The C interface which a configuration defines (ort-c-header(1)), and its compilation."""
import os, re, subprocess, collections
import h, ortgen, model
from ortgen import sdict, fdict
SHIM = os.path.join(os.path.dirname(os.path.abspath(__file__)), "cshim")
UNARY = ("isnull", "notnull")
QWORD = {"search": "get", "list": "list", "iterate": "iterate", "count": "count"}
MODWORD = {"concat": "cat", "dec": "dec", "inc": "inc", "set": "set", "strset": "strset"}

def retstruct(cfg, s, q):
    if q["distinct"] and q["distinct"] != ["."]:
        ps, f = model.walk(cfg, s, q["distinct"])[-1]
        return model.target(cfg, ps, f)
    return s

def queryname(s, q):
    n = "db_%s_%s" % (s["name"], QWORD[q["type"]])
    if q["name"]: return n + "_" + q["name"]
    if q["terms"]: n += "_by" + "".join("_%s_%s" % ("_".join(p), op) for p, op in q["terms"])
    return n

def updatename(s, u, mod):
    n = "db_%s_%s" % (s["name"], "update" if mod else "delete")
    if u["name"]: return n + "_" + u["name"]
    if mod and u["mods"]: n += "".join("_%s_%s" % (f, MODWORD[m or "set"]) for f, m in u["mods"])
    if u["cons"]: n += "_by" + "".join("_%s_%s" % (f, op) for f, op in u["cons"])
    return n

def queues(cfg):
    """Structures with lists and iterators."""
    L, I = set(), set()
    for s in cfg["structs"]:
        for q in s["queries"]:
            if q["type"] == "list": L.add(retstruct(cfg, s, q)["name"])
            if q["type"] == "iterate": I.add(retstruct(cfg, s, q)["name"])
    return L, I

def opnames(cfg):
    """Names of the operations' functions, in a list (with duplicates if the configuration asks for the same one twice)."""
    out = []
    for s in cfg["structs"]:
        if s["insert"]: out.append("db_%s_insert" % s["name"])
        out += [queryname(s, q) for q in s["queries"]] + [updatename(s, u, True) for u in s["updates"]] + [updatename(s, u, False) for u in s["deletes"]]
    return out

def functions(cfg, flags, db=True):
    """All functions of the interface."""
    out = set(); L, I = queues(cfg)
    if db:
        out |= {"db_open", "db_open_logging", "db_logging_data", "db_close", "db_trans_open", "db_trans_commit", "db_trans_rollback"}
        if cfg["roles"] is not None: out |= {"db_role", "db_role_current", "db_role_stored"}
        for s in cfg["structs"]:
            out.add("db_%s_free" % s["name"])
            if s["name"] in L: out.add("db_%s_freeq" % s["name"])
        out |= set(opnames(cfg))
    if "j" in flags:
        for s in cfg["structs"]:
            out |= {"json_%s_data" % s["name"], "json_%s_obj" % s["name"]}
            if s["name"] in L: out.add("json_%s_array" % s["name"])
            if s["name"] in I: out.add("json_%s_iterate" % s["name"])
    if "J" in flags:
        out |= {"jsmn_eq", "jsmn_init", "jsmn_parse"}
        for s in cfg["structs"]: out |= {"jsmn_%s" % s["name"], "jsmn_%s_array" % s["name"], "jsmn_%s_clear" % s["name"], "jsmn_%s_free_array" % s["name"]}
    if "v" in flags:
        for s in cfg["structs"]:
            for f in s["fields"]:
                if f["type"] != "struct": out.add("valid_%s_%s" % (s["name"], f["name"]))
    return out

BASE = ["gcc", "-std=gnu11", "-O0", "-g0", "-Wall", "-Wno-unused", "-Wno-enum-compare", "-Werror=implicit-function-declaration", "-Werror=incompatible-pointer-types", "-Werror=int-conversion",
        "-Werror=implicit-int", "-Werror=return-type", "-Werror=format", "-Werror=uninitialized", "-Werror=discarded-qualifiers", "-Werror=overflow", "-Wno-comment", "-Werror=duplicate-decl-specifier", "-Werror=switch-outside-range"]
INC = ["-I" + SHIM, "-include", os.path.join(SHIM, "compat.h")]

def cc(ctx, src, obj, extra=()):
    return h.run(BASE + INC + ["-I" + ctx.scratch, "-c", "-o", os.path.join(ctx.scratch, obj), os.path.join(ctx.scratch, src)] + list(extra), cwd=ctx.scratch)

def defined(ctx, *objs):
    out = set()
    for o in objs:
        r = h.run(["nm", "-g", "--defined-only", os.path.join(ctx.scratch, o)])
        out |= {l.split()[2] for l in r.text.splitlines() if l.split()[1] in "TW"}
    return out

def declared(ctx, hdrs, pre):
    """Functions declared by the headers themselves: {name: prototype}."""
    ctx.write("decl.c", pre + "".join('#include "%s"\n' % x for x in hdrs))
    aux = os.path.join(ctx.scratch, "decl.aux")
    if os.path.exists(aux): os.unlink(aux)
    r = cc(ctx, "decl.c", "decl.o", ["-aux-info", aux])
    if r.rc: raise h.Bad("the C header does not compile", r.errtext[:3000])
    out = {}
    for l in open(aux, errors="replace"):
        m = re.match(r"/\* (.*?):\d+:[A-Z]+ \*/ (.*)$", l)
        if not m or os.path.basename(m.group(1)) not in hdrs: continue
        decl = m.group(2)
        if decl.startswith("static"): continue
        n = re.search(r"(\w+) \(", decl)
        out[n.group(1)] = decl.split(";")[0]
    return out
