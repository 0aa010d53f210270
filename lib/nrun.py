"""Generated TypeScript modules in operation (ort-nodejs(1)), with the interface of crun's programs."""
import os, json
import h, ortgen, model, cgen, crun, nodesrv
from ortgen import sdict, fdict
from h import Bad, Skip

TST = {"bit": "bigint", "bits": "bigint", "date": "bigint", "epoch": "bigint", "int": "bigint", "real": "number", "blob": "Buffer", "text": "string", "password": "string", "email": "string"}
def tstype(cfg, s, f):
    if f["type"] == "struct":
        src = fdict(s)[f["src"]]
        return "ortns.%sData%s" % (src["ref"][0], "|null" if src["null"] else "")
    return ("ortns." + f["enum"] if f["type"] == "enum" else TST[f["type"]]) + ("|null" if f["null"] else "")

def usage(cfg, OPS, roles):
    """A program which uses the whole interface with the documented types."""
    o = ["export function u_ctx(db: ortdb): ortctx { const v: string = db.version; const w: number = db.vstamp; const c: number = db.args.bcrypt_cost; void [v, w, c]; return db.connect(); }\n",
         "export function u_tr(c: ortctx): void { c.db_trans_open_immediate(1); c.db_trans_open_deferred(1); c.db_trans_open_exclusive(1); c.db_trans_commit(1); c.db_trans_rollback(1); }\n",
         "export function u_open(): ortdb { const a: ortdb = ort('x'); void a; return ort('y', { bcrypt_cost: 4 }); }\n"]
    if roles: o.append("export function u_role(c: ortctx): string { c.db_role('none'); return c.db_role_current(); }\n")
    for s in cfg["structs"]:
        t = "{ " + "".join("%s: %s; " % (f["name"], tstype(cfg, s, f)) for f in s["fields"]) + "}"
        o.append("export function u_data_%s(o: ortns.%s): ortns.%sData { const x: %s = o.obj; const y: ortns.%sData = x; const z: any = o.export(); void z; return y; }\n" % (s["name"], s["name"], s["name"], t, s["name"]))
    for op in OPS.values():
        P = ["a%d" % i for i in range(len(op.params))]
        sig = ", ".join(["ctx: ortctx"] + ["%s: %s" % (p, tstype(cfg, ps, f)) for p, (ps, f, _, _) in zip(P, op.params)])
        ret = {"insert": "bigint", "update": "boolean", "delete": "void", "count": "bigint"}.get(op.kind)
        if op.kind == "search": ret = "ortns.%s|null" % op.ret["name"]
        if op.kind == "list": ret = "ortns.%s[]" % op.ret["name"]
        if op.kind == "iterate": ret = "void"; P.append("(r: ortns.%s): void => { void r; }" % op.ret["name"])
        o.append("export function u_%s(%s): %s { const v: %s = ctx.%s(%s); return v; }\n" % (op.name, sig, ret, ret, op.name, ", ".join(P)))
    return "".join(o)

def dodge(cfg):
    """Leave out updates of columns referenced from the same table: the SQLite versions of node (3.51) and of the reference (3.45) differ there."""
    for s in cfg["structs"]:
        own = {f["ref"][1] for f in s["fields"] if f["ref"] and f["ref"][0] == s["name"]}
        s["updates"] = [u for u in s["updates"] if u["mods"] is not None and not own.intersection(m[0] for m in u["mods"])] if own else s["updates"]
    return cfg

IMPORTS = "import bcrypt from 'bcrypt';\nimport Database from 'better-sqlite3';\nimport validator from 'validator';\n"
NODE = None
def node():
    global NODE
    if NODE is None: NODE = nodesrv.Node("nrun.js")
    return NODE

class Res: pass
class Exe:
    def __init__(self, q, cfg, OPS, schema, cost):
        self.q = q; self.cost = cost; self.schema = schema
        self.structs = {s["name"]: [[f["name"], f["type"], model.target(cfg, s, f)["name"] if f["type"] == "struct" else None] for f in s["fields"]] for s in cfg["structs"]}
        self.ops = {op.name: {"kind": op.kind, "params": [f["type"] for _, f, _, _ in op.params], "ret": op.ret["name"] if op.kind in ("search", "list", "iterate") else None} for op in OPS.values()}
    def load(self):
        a = node().ask(self.q)
        if a.get("timeout") or a.get("died"): raise Bad("TypeScript: checking or loading the module does not end", str(a))
        if a["errs"]:
            raise Bad("TypeScript: the module does not %s" % ("load" if a["errs"][0].startswith("loading") else "type-check"), "\n".join(a["errs"][:10]))
        self.id = a["id"]; self.p = node().p
    def play(self, ctx, lines):
        q = {"cmd": "nplay", "id": self.id, "schema": self.schema, "cost": self.cost, "structs": self.structs, "ops": self.ops, "lines": lines}
        a = node().ask(q, 60)
        if a.get("gone"): self.load(); q["id"] = self.id; a = node().ask(q, 60)
        r = Res(); r.timeout = bool(a.get("timeout"))
        if r.timeout: self.load(); r.rc = None; r.out = r.err = b""; r.errtext = ""; return r
        if a.get("died"): self.load(); r.rc = -9; r.out = b""; r.err = b""; r.errtext = "died"; return r
        if "exception" in a: raise RuntimeError(a["exception"])
        r.out = "".join(x + "\n" for x in a["out"]).encode(); r.rc = a["rc"]; r.errtext = a["err"]; r.err = a["err"].encode() + (b" driver: end 0" if r.rc == 0 else b"")
        return r

def source(ctx, fpath, mode, valid=False):
    v = ["-v"] if valid else []
    if mode == "module": return ctx.ok("ort-nodejs", *v, fpath).text
    if mode == "embedded": return IMPORTS + ctx.ok("ort-nodejs", "-e", *v, fpath).text
    # two files
    return IMPORTS + ctx.ok("ort-nodejs", "-e", "-Nd", fpath).text + ctx.ok("ort-nodejs", "-e", "-Nb", *v, fpath).text

def build(ctx, cfg, fpath, OPS, mode="module", check=True, cost=None, valid=False):
    schema = ctx.ok("ort-sql", fpath).text
    src = source(ctx, fpath, mode, valid)
    use = usage(cfg, OPS, cfg["roles"] is not None)
    q = {"cmd": "nbuild", "check": check}
    if mode == "module": q["src"] = src; q["usage"] = "import { ortns, ortdb, ortctx, ort } from './db';\n" + use
    else: q["src"] = src + "export { ort, ortdb, ortctx, ortns%s };\n" % (", ortvalid" if valid else "") + use
    exe = Exe(q, cfg, OPS, schema, cost); exe.load()
    return exe, schema
