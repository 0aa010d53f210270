import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from h import *
class C(Check):
    ID = "C04"
    TZS = ["UTC", "UTC", "XXX8", "YYY-13:45", "EST5EDT,M3.2.0,M11.1.0", "UTC"]
    N = {"quick": 20000, "thorough": 100000}
    RULE = "random configurations from the grammar-directed generator in a random presentation; non-trivial: at least one structure with an operation, default, limit, label, comment or role"
    def gen(self, r, i):
        return {"cfg": ortgen.gen(r, ortgen.Prof(exotic=r.choice([0, .3, .9]))), "style": r.randint(0, 2**32) if r.random() < .6 else None}
    def run(self, ctx, case):
        ctx.tz = case.get("tz")
        st = ortgen.Style(random.Random(case["style"])) if case["style"] is not None else None
        f = ctx.cfg(case["cfg"], "a.ort", st)
        a = ctx.ok("ort", f)
        g = ctx.write("b.ort", a.out)
        b = ctx.tool("ort", g)
        if b.rc != 0: raise Bad("canonical output is rejected: " + b.errtext[:200], a.text)
        if b.out != a.out: raise Bad("formatting is not a fixpoint", a.text + "\n----\n" + b.text)
        d = ctx.tool("ort-diff", f, g)
        if d.rc != 0 or d.text.count("\n") != 2: raise Bad("canonical output differs in meaning (ort-diff rc %s)" % d.rc, d.text + a.text)
        c = case["cfg"]; l = []
        for s in c["structs"]:
            for k in ("queries", "updates", "deletes", "uniques", "roles"):
                if s[k]: l.append(k)
            for x in s["fields"]:
                if x["default"]: l.append("default " + x["type"])
                if x["limits"]: l.append("limit " + x["type"])
                if x["comment"]: l.append("comment")
            for x in s["updates"]:
                l.append("update %s%s%s" % ("all " if not x["mods"] else "", "cons " if x["cons"] else "", "named" if x["name"] else "anon"))
        if c["roles"] is not None: l.append("roleblock")
        if c["enums"]: l.append("enum")
        if c["bits"]: l.append("bits")
        return l
main(C)
