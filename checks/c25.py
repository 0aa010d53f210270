import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from c13 import *
import c14, c15, c16, c17, c22, rrun
class D(C):
    ID = "C25"
    RULE = ("a generated configuration weighted towards changes, queries, passwords, roles or exports, as a Rust module compiled with a program using every method with the documented types, then histories played over SQLite; every result and, after each change, all tables are compared with the reference, and exports with the structures; "
            "non-trivial: a history with an accepted change and a query that selects some rows but not all, or an operation denied, or an export")
    N = {"quick": 450, "thorough": 15000}
    ASSUME = ["rusqlite, libsqlite3-sys, bcrypt, base64, num-traits and num-derive replaced by stand-ins following their documentation (the password hash is not cryptographic)"]
    def gen(self, r, i):
        k = r.choice(["changes", "queries", "passwords", "roles", "export"])
        K = {"changes": C, "queries": c14.D, "passwords": c15.D, "roles": c16.D, "export": c17.D}[k]
        if k in ("roles", "export"):
            case = K.gen(K(), r, i); case["hists"] = [[x for x in hh if x[0][0] != "="] for hh in case["hists"]]
        else:
            cfg = ortgen.gen(r, K.prof(self, r)); C.tune(self, r, cfg)
            if k != "changes":
                for s in cfg["structs"]: s["insert"] = True
            case = {"cfg": cfg, "hists": []}
            try: OPS = crun.ops(cfg)
            except Skip: OPS = None
            for _ in range(6 if OPS else 0):
                hi = crun.history(r, cfg, OPS, None, r.choice([15, 30, 45]), K.W)
                if hi: case["hists"].append(hi)
        case.update(kind=k, safe=False, asan=False, cost=r.choice([None, 4, 12]))
        return case
    def run(self, ctx, case):
        cfg = case["cfg"]; f = ctx.cfg(cfg)
        if ctx.tool("ort", f).rc: raise Skip("refused")
        if not case["hists"]: raise Skip("no histories")
        OPS = crun.ops(cfg)
        exe, schema = rrun.build(ctx, cfg, f, OPS, case["cost"])
        order = crun.tableorder(schema); labels = [case["kind"]]
        def cb(ref, op, args, g, kind, log):
            last = ref.last
            if last[0] != op.name or last[1] != args: raise Skip("history does not fit")
            dump = last[2]; e = c22.Exp(); n = op.ret["name"]
            try:
                if not isinstance(g, list) or len(g) != len(dump): raise Bad("export: number of objects", repr(g))
                for i, (d, j) in enumerate(zip(dump, g)): e.obj(cfg, ref.role, op.ret, d, j, "%s[%d]" % (n, i))
            except Bad as b: raise Bad(b.msg, "%s\n%s\nexported %s\nfrom %s\n%s" % (b.detail, op.name, json.dumps(g), json.dumps(dump), log()))
            return ["export"] + sorted(e.l) if g else []
        for hi in case["hists"]: labels += crun.replay(ctx, exe, cfg, OPS, order, hi, json_cb=cb, dumps=case["kind"] != "export")
        return labels
    def nontrivial(self, l): return ("insert" in l or "update" in l) and "selective" in l or "denied" in l or "export" in l
if __name__ == "__main__": main(D)
