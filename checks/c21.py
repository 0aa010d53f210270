import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from c13 import *
import c16, nrun
class D(c16.D):
    ID = "C21"
    RULE = ("generated configurations with a role tree and assignments, as a TypeScript module (imported, embedded, or in two parts), and twelve short histories each, of role changes and operations over seeded rows, each ending with an operation or role change that is to be refused; "
            "every operation must complete with the result of the reference exactly when the current role descends from an assigned one, and every change of role exactly when documented, the process being aborted otherwise; non-trivial: a case with operations permitted and denied and role changes permitted and refused")
    N = {"quick": 800, "thorough": 25000}
    ASSUME = ["better-sqlite3 replaced by a stand-in over node:sqlite, bcrypt by a salted non-cryptographic hash, following their documentation", "process.abort replaced by an exception recorded by the harness"]
    def tune(self, r, cfg):
        super().tune(r, cfg); nrun.dodge(cfg)
    def gen(self, r, i):
        case = super().gen(r, i)
        case.update(mode=r.choice(["module", "module", "embedded", "split"]), asan=False, check=r.random() < .3)
        return case
    def reductions(self, case):
        if case["mode"] != "module": yield dict(case, mode="module")
        for c in super().reductions(case): yield dict(c, cfg=nrun.dodge(c["cfg"]))
    def run(self, ctx, case):
        cfg = case["cfg"]
        if cfg["roles"] is None: raise Skip("no roles")
        OPS = crun.ops(cfg); f = ctx.cfg(cfg)
        if ctx.tool("ort", f).rc: raise Skip("refused")
        exe, schema = nrun.build(ctx, cfg, f, OPS, case["mode"], case.get("check", False), 4)
        order = crun.tableorder(schema); labels = ["mode " + case["mode"]]
        for hi in case["hists"]: labels += crun.replay(ctx, exe, cfg, OPS, order, hi)
        return labels
if __name__ == "__main__": main(D)
