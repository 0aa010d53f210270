import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from h import *
import crun
class C(Check):
    ID = "C13"
    N = {"quick": 500, "thorough": 20000}
    NH = 6
    W = {}
    RULE = ("a generated configuration (as C, compiled with a program that executes scripts) and six histories of operations with arguments drawn from small pools, existing rows and references; every result and, after each change, "
            "all tables are compared with the reference (own schema, own selection and evaluation); non-trivial: a history with an accepted insert, an update or delete, and one refused")
    ASSUME = ["sqlbox(3) replaced by a stand-in over SQLite in the same process", "crypt_newhash(3) replaced by a salted non-cryptographic hash"]
    def prof(self, r): return ortgen.Prof(structs=(1, 4), roles=0, comments=.05, labels=0, queries=(0, 2), updates=(1, 4), deletes=(0, 2), exotic=.1)
    def tune(self, r, cfg): 
        for s in cfg["structs"]:
            if r.random() < .8: s["insert"] = True
            for q in s["queries"]:
                q["order"] = [o for o in q["order"] if crun.model.walk(cfg, s, o[0])[-1][1]["type"] != "password"]
    def gen(self, r, i):
        cfg = ortgen.gen(r, self.prof(r)); self.tune(r, cfg)
        case = {"cfg": cfg, "safe": r.random() < .25, "asan": r.random() < .12, "hists": []}
        try: OPS = crun.ops(cfg)
        except Skip: return case
        order = ortgen_order(cfg)
        for k in range(self.NH):
            hi = crun.history(r, cfg, OPS, order, r.choice([15, 30, 45]), self.W)
            if hi: case["hists"].append(hi)
        return case
    def reductions(self, case):
        H = case["hists"]
        if len(H) > 1:
            for x in H: yield dict(case, hists=[x])
        elif H:
            x = H[0]; n = len(x)
            for k in (n // 2, n // 4, 4, 2, 1):
                if k < 1: continue
                for i in range(0, n, k): yield dict(case, hists=[x[:i] + x[i + k:]])
        for k in ("safe", "asan"):
            if case[k]: yield dict(case, **{k: False})
        yield from super().reductions(case)
    def run(self, ctx, case):
        cfg = case["cfg"]; OPS = crun.ops(cfg); f = ctx.cfg(cfg)
        if ctx.tool("ort", f).rc: raise Skip("refused")
        if not case["hists"]: raise Skip("no inserts")
        exe, schema = crun.build(ctx, cfg, f, OPS, safe=case["safe"], asan=case["asan"])
        order = crun.tableorder(schema); labels = []
        for hi in case["hists"]: labels += crun.replay(ctx, exe, cfg, OPS, order, hi)
        if case["asan"]: labels.append("sanitizers")
        return labels
    def sample(self, case):
        d = dict(case); d["cfg"] = ortgen.pretty(case["cfg"]); d["hists"] = [[" ".join(x) for x in hi] for hi in case["hists"][:1]]
        return d
    def nontrivial(self, l): return "insert" in l and ("update" in l or "delete" in l) and ("insert refused" in l or "update refused" in l or "delete stopped" in l)
def ortgen_order(cfg): return None
if __name__ == "__main__": main(C)
