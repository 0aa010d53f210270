import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from h import *
import nodesrv
class C(Check):
    ID = "C10"
    TZS = ["UTC", "UTC", "XXX8", "YYY-13:45", "EST5EDT,M3.2.0,M11.1.0", "UTC"]
    N = {"quick": 15000, "thorough": 80000}
    RULE = "random configurations, exotic strings included; ort-json output parsed strictly, converted back with ort-json.ts under node and compared with ort-diff; non-trivial: a string with a character that JSON escapes, or an operation, default, limit or role"
    ASSUME = ["node and TypeScript transpile ort-json.ts as its users would"]
    node = None
    def gen(self, r, i):
        if i % 300 == 0:
            return {"types": [ortgen.gen(r, ortgen.Prof(exotic=r.choice([0, .3, .9]))) for _ in range(25)]}
        return {"cfg": ortgen.gen(r, ortgen.Prof(exotic=r.choice([0, .3, .9]))), "style": r.randint(0, 2**32) if r.random() < .5 else None, "frag": False}
    def run(self, ctx, case):
        ctx.tz = case.get("tz")
        if self.node is None: self.node = nodesrv.Node("jsontype.js")
        if "types" in case: return self.types(ctx, case)
        cfg = case["cfg"]
        st = ortgen.Style(random.Random(case["style"])) if case["style"] is not None else None
        f = ctx.cfg(cfg, "a.ort", st)
        a = ctx.ok("ort-json", f)
        def nodup(pairs):
            d = dict(pairs)
            if len(d) != len(pairs): raise Bad("duplicate key in the JSON document", a.text[:2000])
            return d
        try: j = json.loads(a.out.decode("utf-8"), object_pairs_hook=nodup)
        except ValueError as e: raise Bad("not JSON: %s" % e, a.text[:3000])
        if set(j) != {"config"} or set(j["config"]) != {"rq", "eq", "bq", "sq"}: raise Bad("shape of the document")
        if st is None: self.positions(cfg, j["config"], f)
        lib = os.path.join(ctx.dirs["plain"], "ort-json.ts")
        o = self.node.ask({"cmd": "jsonfmt", "lib": lib, "json": j})
        if "out" not in o: raise Bad("ort-json.ts failed", json.dumps(o)[:2000])
        g = ctx.write("b.ort", o["out"])
        b = ctx.tool("ort", g)
        if b.rc != 0: raise Bad("converted configuration is refused", b.errtext[:500] + o["out"][:3000])
        d = ctx.tool("ort-diff", f, g)
        if d.rc != 0: raise Bad("converted configuration differs", d.text + o["out"][:3000])
        l = []
        for s in cfg["structs"]:
            for k in ("queries", "updates", "deletes", "uniques", "roles"):
                if s[k]: l.append(k)
            for x in s["fields"]:
                if x["default"]: l.append("default " + x["type"])
                if x["limits"]: l.append("limit " + x["type"])
        t = open(f).read()
        for c, n in (("\\", "backslash"), ("\\\"", "quote"), ("\t", "tab")):
            if c in t: l.append(n)
        return l
    def types(self, ctx, case):
        """The documents are of the type that ort-json.ts declares for them."""
        docs = []
        for c in case["types"]: docs.append(json.loads(ctx.ok("ort-json", ctx.cfg(c)).text))
        a = self.node.ask({"cmd": "jsontypes", "lib": os.path.join(ctx.dirs["plain"], "ort-json.ts"), "docs": docs}, 90)
        if "errs" not in a: raise RuntimeError(str(a)[:500])
        if a["errs"]: raise Bad("document is not of its declared type", "\n".join(x.split(" -- ")[-1][:600] for x in a["errs"][:5]))
        return ["declared type"]
    def reductions(self, case):
        if "types" not in case: yield from super().reductions(case); return
        T = case["types"]
        if len(T) > 1:
            for c in T: yield {"types": [c]}
        else:
            for c in ortgen.reductions(T[0]): yield {"types": [c]}
    def sample(self, case):
        return {"types": [ortgen.pretty(c) for c in case["types"][:2]]} if "types" in case else super().sample(case)
    def positions(self, cfg, j, f):
        src = open(f, "rb").read().split(b"\n")
        def at(o, name, what):
            p = o["pos"]
            if p["fname"] != f or not (1 <= p["line"] <= len(src)) or not src[p["line"] - 1][:p["column"]].endswith(name.encode()):
                raise Bad("position of %s is not where it was written" % what, "%r %r" % (name, p))
        for k in ("eq", "bq"):
            for n, e in j[k].items():
                at(e, n, "enumeration or bit field")
                for m, i in e[k].items(): at(i, m, "item")
        for n, s in j["sq"].items():
            at(s, n, "structure")
            for m, x in s["fq"].items(): at(x, m, "field")
main(C)
