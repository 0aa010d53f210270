import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from h import *
import edits, refdiff, re, copy
class C(Check):
    ID = "C06"
    N = {"quick": 15000, "thorough": 400000}
    RULE = ("a generated configuration and a second one made from it by 0-6 random edits of the model (or an independent one), written one statement per line; the lines of ort-diff(1), in both directions, are compared (columns apart) with a reference "
            "difference of the two models; identical models in random presentations must give exit 0 and no difference; non-trivial: the models differ in at least one object inside a common structure, enumeration or role tree")
    def gen(self, r, i):
        p = ortgen.Prof(exotic=r.choice([0, .3]), structs=(1, 4), roles=.6, comments=.25, queries=(0, 4), anon=r.choice([.2, .6]))
        a = ortgen.gen(r, p)
        k = r.random()
        if k < .12: b = copy.deepcopy(a)
        elif k < .2: b = ortgen.gen(r, p)
        else: b = edits.edit(r, a, p, r.choice([1, 1, 2, 3, 6]))
        return {"cfg": a, "new": b, "seed": r.randint(0, 2**32), "f": r.random() < .3}
    def norm(self, text, na, nb):
        out = []
        for l in text.split("\n"):
            l = re.sub(r"(:\d+):\d+( |$)", r"\1\2", l)
            if l.strip(): out.append(" ".join(l.split()))
        return out
    def run(self, ctx, case):
        A, B = case["cfg"], case["new"]; r = random.Random(case["seed"])
        ta, pa = refdiff.layout(A); tb, pb = refdiff.layout(B)
        fa = ctx.write("a.ort", ta); fb = ctx.write("b.ort", tb)
        if ctx.tool("ort", fa).rc: raise Skip("old configuration refused")
        if ctx.tool("ort", fb).rc: raise Skip("edited configuration refused")
        labels = []
        for (fx, X, px, nx, fy, Y, py, ny) in ((fa, A, pa, "a.ort", fb, B, pb, "b.ort"), (fb, B, pb, "b.ort", fa, A, pa, "a.ort")):
            how = r.choice(["ab", "a-f-b", "a<b", "-f-b<a"]) if case["f"] else "ab"
            if how == "a<b": d = ctx.tool("ort-diff", nx, stdin=open(fy, "rb").read()); ny_ = "<stdin>"; nx_ = nx
            elif how == "-f-b<a": d = ctx.tool("ort-diff", "-f", ny, stdin=open(fx, "rb").read()); nx_ = "<stdin>"; ny_ = ny
            else: d = ctx.tool("ort-diff", *([nx, ny] if how == "ab" else [nx, "-f", ny])); nx_, ny_ = nx, ny
            nx, ny = nx_, ny_
            want = refdiff.expected(X, px, nx, Y, py, ny)
            if d.rc not in (0, 1): raise Bad("ort-diff fails (%s)" % d.rc, d.errtext)
            if not want:
                if d.rc != 0 or d.text != "--- %s\n+++ %s\n" % (nx, ny): raise Bad("differences reported between equal models", d.text[:2000])
                labels.append("equal"); continue
            if d.rc != 1: raise Bad("differences not reported", "expected:\n" + "\n".join(want))
            got = self.norm(d.text, nx, ny)
            if got[:2] != ["--- " + nx, "+++ " + ny]: raise Bad("no header", d.text[:200])
            g = set(got[2:]); w = set(want)
            if g != w: raise Bad("reported differences are not those of the models", "missing:\n  %s\nunexpected:\n  %s\n\nOLD\n%s\nNEW\n%s" % ("\n  ".join(sorted(w - g)), "\n  ".join(sorted(g - w)), X is A and ta or tb, Y is A and ta or tb))
            # each section and object comes once
            heads = [l for l in got if l.startswith("@@")]
            if len(heads) != len(set(heads)): raise Bad("an object is reported twice", d.text[:2000])
            for l in want:
                if l.startswith("!"): labels.append(" ".join(l.split()[:3]))
                elif l[0] in "+-" and l.split()[1] not in ("strct", "enm", "bitf", "roles"): labels.append(" ".join(l.split()[:2]))
        # another presentation of the same model is no difference
        st = ortgen.Style(r)
        ctx.write("c.ort", ortgen.render(A, st)); s = ctx.tool("ort-diff", "a.ort", "c.ort")
        if s.rc != 0 or "@" in s.text: raise Bad("differences reported between presentations of one model", s.text[:2000] + s.errtext[:500])
        return labels
    def nontrivial(self, labels): return any(l[0] in "!+-" for l in labels)
    def reductions(self, case):
        A, B = case["cfg"], case["new"]
        # the same cut in both
        cb = {json.dumps(y): y for y in []}
        for k in ("structs", "enums", "bits"):
            for n in [x["name"] for x in A[k]] + [x["name"] for x in B[k]]:
                d = copy.deepcopy(case)
                for w in ("cfg", "new"): d[w][k] = [x for x in d[w][k] if x["name"] != n]
                yield d
        for s in A["structs"]:
            for kk in ("queries", "updates", "deletes", "roles", "uniques", "fields"):
                for i in range(len(s[kk])):
                    e = s[kk][i]
                    d = copy.deepcopy(case)
                    for w in ("cfg", "new"):
                        for t in d[w]["structs"]:
                            if t["name"] == s["name"]: t[kk] = [z for z in t[kk] if z != e]
                    yield d
        for c in ortgen.reductions(A): yield dict(case, cfg=c)
        for c in ortgen.reductions(B): yield dict(case, new=c)
    def sample(self, case): return {"old": ortgen.pretty(case["cfg"]), "new": ortgen.pretty(case["new"])}
main(C)
