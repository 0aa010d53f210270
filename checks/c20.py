import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from c13 import *
import c14, c15, nrun
class D(C):
    ID = "C20"
    RULE = ("a generated configuration weighted towards changes, queries or passwords, as a TypeScript module (imported, embedded, or in two parts), type-checked in strict mode together with a program using every method with the documented types, then five histories played over SQLite; every result and, after each change, all tables are compared with the reference; "
            "non-trivial: a history with an accepted change and a query that selects some rows but not all")
    N = {"quick": 1000, "thorough": 20000}
    NH = 5
    ASSUME = ["better-sqlite3 replaced by a stand-in over node:sqlite, bcrypt by a salted non-cryptographic hash, following their documentation"]
    def gen(self, r, i):
        k = r.choice([C, c14.D, c15.D])
        self.prof = lambda r: k.prof(self, r)
        cfg = ortgen.gen(r, k.prof(self, r))
        C.tune(self, r, cfg)
        if k is not C:
            for s in cfg["structs"]: s["insert"] = True
        nrun.dodge(cfg)
        W = k.W
        case = {"cfg": cfg, "mode": r.choice(["module", "module", "embedded", "split"]), "cost": r.choice([None, 4, 12]), "check": r.random() < .5, "hists": []}
        try: OPS = crun.ops(cfg)
        except Skip: return case
        for k in range(self.NH):
            hi = crun.history(r, cfg, OPS, None, r.choice([15, 30, 45]), W)
            if hi: case["hists"].append(hi)
        return case
    def reductions(self, case):
        if case["mode"] != "module": yield dict(case, mode="module")
        if case["check"]: yield dict(case, check=False)
        case = dict(case, safe=False, asan=False)
        for c in super().reductions(case): yield dict(c, cfg=nrun.dodge(c["cfg"]))
    def run(self, ctx, case):
        cfg = case["cfg"]; OPS = crun.ops(cfg); f = ctx.cfg(cfg)
        if ctx.tool("ort", f).rc: raise Skip("refused")
        exe, schema = nrun.build(ctx, cfg, f, OPS, case["mode"], case["check"], case["cost"])
        order = crun.tableorder(schema); labels = ["mode " + case["mode"]] + (["type-checked"] if case["check"] else [])
        for hi in case["hists"]: labels += crun.replay(ctx, exe, cfg, OPS, order, hi)
        return labels
    def nontrivial(self, l): return ("insert" in l or "update" in l) and "selective" in l
if __name__ == "__main__": main(D)
