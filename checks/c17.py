import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from c13 import *
import model, base64
from ortgen import fdict, sdict


def exportable(cfg, s, role, f):
    if f["noexport"] or f["type"] == "password": return False
    par = model.parents(cfg)
    return not (cfg["roles"] is not None and any(model.isa(par, role, x) for x in model.noexport_roles(cfg, s, f["name"])))

class Exp:
    """Comparison of exported JSON with the structures they were made from."""
    def __init__(self): self.l = set()
    def value(self, f, v, j, where):
        t = f["type"]
        if v is None:
            self.l.add("null")
            if j is not None: raise Bad("export: null value", "%s is %r" % (where, j))
            return
        v = crun.dec(v)
        if t in crun.INTS or t == "enum":
            if isinstance(j, bool) or not (isinstance(j, int) or isinstance(j, str) and j.lstrip("-").isdigit()) or int(j) != v: raise Bad("export: integer", "%s: %r, not %d" % (where, j, v))
            if abs(v) > 2**53: self.l.add("large integer")
        elif t == "real":
            if isinstance(j, bool) or not isinstance(j, (int, float)) or float(j) != v: raise Bad("export: real", "%s: %r, not %r" % (where, j, v))
        elif t == "blob":
            try: b = base64.b64decode(j, validate=True)
            except Exception: raise Bad("export: binary data", "%s: %r" % (where, j))
            if b != v: raise Bad("export: binary data", "%s: %r, not %r" % (where, j, v))
            self.l.add("blob")
        else:
            if j != v: raise Bad("export: text", "%s: %r, not %r" % (where, j, v))
            if any(c in v for c in '"\\\n/') or any(ord(c) > 127 for c in v): self.l.add("special characters")
    def obj(self, cfg, role, s, dump, j, where):
        if not isinstance(j, dict): raise Bad("export: not an object", "%s: %r" % (where, j))
        want = {f["name"] for f in s["fields"] if exportable(cfg, s, role, f)}
        if set(j) - want: raise Bad("export: a field which is not to be exported", "%s: %s in role %s" % (where, sorted(set(j) - want), role))
        if want - set(j): raise Bad("export: a field is missing", "%s: %s in role %s" % (where, sorted(want - set(j)), role))
        for f in s["fields"]:
            if f["name"] not in want:
                if not f["noexport"] and f["type"] != "password": self.l.add("hidden by role")
                else: self.l.add("not exported")
                continue
            w = where + "." + f["name"]; v = dump[f["name"]]; x = j[f["name"]]
            if f["type"] == "struct":
                if v is None:
                    self.l.add("null structure")
                    if x is not None: raise Bad("export: null structure", "%s is %r" % (w, x))
                else: self.l.add("nested"); self.obj(cfg, role, model.target(cfg, s, f), v, x, w)
            else: self.value(f, v, x, w)

class D(C):
    ID = "C17"
    RULE = ("generated configurations with and without roles (as C, compiled with a program that executes scripts) and eight histories each; every search, list and iteration is run once into structures and then with the export functions, the text is read by an independent strict reader "
            "and compared field by field with the structures: every field that is exportable to the role, and no other; non-trivial: an export with nested structures or nulls of which some fields are withheld")
    N = {"quick": 500, "thorough": 12000}
    NH = 8
    def prof(self, r): return ortgen.Prof(structs=(2, 4), roles=.65, comments=0, labels=0, queries=(1, 4), updates=(0, 1), deletes=(0, 1), exotic=.1, anon=.15, structref=.9, refs=[0, 1, 1, 2], null=.35, refnull=r.choice([.25, .25, .6]))
    def tune(self, r, cfg):
        super().tune(r, cfg)
        for s in cfg["structs"]:
            for f in s["fields"]:
                if f["noexport"] and r.random() < .6: f["noexport"] = False
            if cfg["roles"] is not None:
                for k in range(2):
                    s["roles"] += [x for x in ortgen.mkroles(r, cfg, s) if not any(set(x["roles"]) & set(y["roles"]) for y in s["roles"])]
    def gen(self, r, i):
        cfg = ortgen.gen(r, self.prof(r)); self.tune(r, cfg)
        case = {"cfg": cfg, "safe": r.random() < .2, "asan": r.random() < .25, "hists": []}
        try: OPS = crun.ops(cfg)
        except Skip: return case
        order = ortgen_order(cfg)
        qs = [n for n in OPS if OPS[n].kind in ("search", "list", "iterate")]
        if not qs: return case
        roles = ["default", "none"] + ortgen.allroles(cfg) if cfg["roles"] is not None else ["default"]
        may = {x: [n for n in qs if cfg["roles"] is None or crun.allowed(cfg, x, OPS[n])] for x in roles}
        for k in range(self.NH):
            out, ref = crun.seeds(r, cfg, order, r.randint(2, 12)); cur = "default"
            for j in range(r.randint(3, 10)):
                if cfg["roles"] is not None and (r.random() < .3 or not may[cur]):
                    c = [x for x in roles if crun.entering(cfg, cur, x) and x != cur and may[x]]
                    if c: cur = r.choice(c); out.append(["role", cur])
                    elif not may[cur]: break
                    continue
                if not may[cur]: break
                n = r.choice(may[cur])
                try: a = crun.genargs(r, ref, OPS[n])
                except Skip: continue
                out.append([n] + a); out.append(["+" + n] + a)
                if OPS[n].kind == "search": out.append(["=" + n] + a)
            case["hists"].append(out)
        return case
    def run(self, ctx, case):
        cfg = case["cfg"]; OPS = crun.ops(cfg); f = ctx.cfg(cfg)
        if ctx.tool("ort", f).rc: raise Skip("refused")
        if not case["hists"]: raise Skip("no queries")
        exe, schema = crun.build(ctx, cfg, f, OPS, flags="j", safe=case["safe"], asan=case["asan"], jsonout=True)
        order = crun.tableorder(schema); labels = []
        def cb(ref, op, args, g, kind, log):
            last = ref.last
            if last[0] != op.name or last[1] != args: raise Skip("history does not fit")
            dump = last[2]; e = Exp(); n = op.ret["name"]
            try:
                if op.kind == "search":
                    if not dump:
                        if g is not None: raise Bad("export: nothing found", repr(g))
                        return []
                    if kind == "+":
                        if not isinstance(g, dict) or list(g) != [n]: raise Bad("export: object is not named after the structure", repr(g))
                        g = g[n]
                    e.obj(cfg, ref.role, op.ret, dump[0], g, n)
                else:
                    if op.kind == "list":
                        if not isinstance(g, dict) or len(g) != 1 or list(g)[0] not in (n, n + "_q"): raise Bad("export: array is not named after the structure", repr(g))
                        g = list(g.values())[0]
                    if not isinstance(g, list): raise Bad("export: not an array", repr(g))
                    if len(g) != len(dump): raise Bad("export: number of objects", "%d, not %d" % (len(g), len(dump)))
                    for i, (d, j) in enumerate(zip(dump, g)): e.obj(cfg, ref.role, op.ret, d, j, "%s[%d]" % (n, i))
                    if len(g) > 1: e.l.add("several")
                    if not g: return []
            except Bad as b:
                raise Bad(b.msg, "%s\n%s %s\nexported %s\nfrom %s\n%s" % (b.detail, kind, op.name, json.dumps(g), json.dumps(dump), log()))
            return ["export"] + sorted(e.l)
        for hi in case["hists"]: labels += crun.replay(ctx, exe, cfg, OPS, order, hi, json_cb=cb, dumps=False)
        if case["asan"]: labels.append("sanitizers")
        return labels
    def nontrivial(self, l): return ("nested" in l or "null" in l or "null structure" in l) and ("hidden by role" in l or "not exported" in l)
if __name__ == "__main__": main(D)
