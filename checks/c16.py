import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from c13 import *
import model
class D(C):
    ID = "C16"
    RULE = ("generated configurations with a role tree and assignments (as C, compiled with a program that executes scripts) and twelve short histories each, of role changes and operations over seeded rows, each ending with an operation or role change that is to be refused; "
            "every operation must complete with the result of the reference exactly when the current role descends from an assigned one, and every change of role exactly when documented, the program ending otherwise; non-trivial: a case with operations permitted and denied and role changes permitted and refused")
    N = {"quick": 700, "thorough": 15000}
    NH = 12
    def prof(self, r): return ortgen.Prof(structs=(2, 4), roles=1, comments=0, labels=0, queries=(1, 4), updates=(0, 3), deletes=(0, 2), exotic=.05, anon=.15, structref=.85, refs=[0, 1, 1, 2], null=.3, deeproles=.4)
    def tune(self, r, cfg):
        super().tune(r, cfg)
        for s in cfg["structs"]:
            # more assignments
            for k in range(2):
                s["roles"] += [x for x in ortgen.mkroles(r, cfg, s) if not any(set(x["roles"]) & set(y["roles"]) for y in s["roles"])]
    def gen(self, r, i):
        cfg = ortgen.gen(r, self.prof(r)); self.tune(r, cfg)
        case = {"cfg": cfg, "safe": False, "asan": r.random() < .1, "hists": []}
        try: OPS = crun.ops(cfg)
        except Skip: return case
        order = ortgen_order(cfg); names = list(OPS)
        if not names: return case
        roles = ["default", "none"] + ortgen.allroles(cfg)
        may = {x: [n for n in names if crun.allowed(cfg, x, OPS[n])] for x in roles}
        may["none"] = []
        for k in range(self.NH):
            out, ref = crun.seeds(r, cfg, order, r.randint(2, 10)); cur = "default"
            for j in range(r.randint(2, 10)):
                if r.random() < .3 or not may[cur]:
                    c = [x for x in roles if crun.entering(cfg, cur, x) and x != cur and (x != "none" or r.random() < .2)]
                    c += [x for x in c if may[x]] * 3
                    if c: cur = r.choice(c); out.append(["role", cur])
                    elif r.random() < .2: out.append(["role", cur])
                    continue
                n = r.choice(may[cur]); op = OPS[n]
                try:
                    a = crun.genargs(r, ref, op)
                    if op.kind in ("insert", "update", "delete"):
                        if op.kind == "delete" and len(ref.selected(op, a)) > 1 and crun.risky(cfg, op.s["name"]): continue
                        e = crun.apply(ref, op, a); out.append([n] + a)
                        if e is None: break
                    else: out.append([n] + a)
                except Skip: continue
            else:
                bad = [x for x in roles if not crun.entering(cfg, cur, x)]; den = [x for x in names if x not in may[cur]]
                if bad and (r.random() < .4 or not den): out.append(["role", r.choice(bad)])
                elif den:
                    n = r.choice(den); out.append([n] + crun.genargs(r, ref, OPS[n]))
            case["hists"].append(out)
        return case
    def run(self, ctx, case):
        if case["cfg"]["roles"] is None: raise Skip("no roles")
        return super().run(ctx, case)
    def nontrivial(self, l): return "permitted" in l and "denied" in l and "role entered" in l and "role refused" in l
if __name__ == "__main__": main(D)
