import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from h import *
TOOLS = [["ort"], ["ort-sql"], ["ort-c-header"], ["ort-c-source", "-S", "SHARE"], ["ort-nodejs"], ["ort-javascript", "-S", "SHARE"], ["ort-rust"], ["ort-c-manpage"], ["ort-xliff"]]
class C(Check):
    ID = "C05"
    TZS = ["UTC", "UTC", "XXX8", "YYY-13:45", "EST5EDT,M3.2.0,M11.1.0", "UTC"]
    N = {"quick": 12000, "thorough": 60000}
    RULE = "random configurations rendered plainly and re-rendered: (a) same order with random case, white-space, hash-comments, keyword aliases and CRLF in strings: every tool's output must be byte-identical; (b) objects and statements shuffled and/or spread over several files: ort-diff must find them the same, and the canonical text and the schema have the same lines; non-trivial: both renderings differ textually and the configuration has an operation, role, label or reference"
    def gen(self, r, i):
        cfg = ortgen.gen(r, ortgen.Prof(exotic=r.choice([0, .3, .9])))
        return {"cfg": cfg, "style": r.randint(0, 2**32), "mode": r.choice(["same", "shuffle", "split", "splitshuffle", "stdin"]), "crlf": r.random() < .4}
    def run(self, ctx, case):
        ctx.tz = case.get("tz")
        cfg = case["cfg"]; m = case["mode"]; r = random.Random(case["style"])
        f = ctx.cfg(cfg, "a.ort")
        shuf = "shuffle" in m
        st = ortgen.Style(r, order=shuf)
        parts = [st.sp(t) + "\n" for _, t in ortgen.toplevel(cfg, st)]
        if case["crlf"]: parts = [crlf(p) for p in parts]
        share = ctx.dirs["plain"]
        n = r.randint(2, 4) if "split" in m else 1
        bins = [[] for _ in range(n)]; k = 0
        for i, p in enumerate(parts):
            # keep the order over the files
            k = max(k, min(n - 1, i * n // max(1, len(parts))))
            bins[k].append(p)
        fs = [ctx.write("b%d.ort" % i, "".join(b)) for i, b in enumerate(bins) if b]
        if not fs: return []
        if not shuf:
            for t in TOOLS:
                args = [share if x == "SHARE" else x for x in t[1:]]
                x = ctx.ok(t[0], *args, f)
                y = ctx.tool(t[0], *args, *([] if m == "stdin" else fs), stdin=open(fs[0], "rb").read() if m == "stdin" else b"")
                if y.rc != 0: raise Bad("re-rendered configuration is refused by %s" % t[0], y.errtext + open(fs[0]).read())
                if x.out != y.out and not (t[0] == "ort-xliff" and strip(x.out) == strip(y.out)): raise Bad("%s output depends on presentation" % t[0], firstdiff(x.text, y.text))
        else:
            # ort-diff takes single files: join by formatting
            y = ctx.tool("ort", *fs)
            if y.rc != 0: raise Bad("re-ordered configuration is refused", y.errtext + "".join(open(q).read() for q in fs))
            g = ctx.write("c.ort", y.out)
            d = ctx.tool("ort-diff", f, g)
            if d.rc != 0: raise Bad("re-ordered configuration differs (%s)" % d.rc, d.text + d.errtext)
            x = ctx.ok("ort", f)
            if lines(x.text) != lines(y.text): raise Bad("canonical text has other content after re-ordering", firstdiff("\n".join(lines(x.text)), "\n".join(lines(y.text))))
            x = ctx.ok("ort-sql", f); y = ctx.ok("ort-sql", *fs)
            if lines(x.text) != lines(y.text): raise Bad("schema has other content after re-ordering", firstdiff("\n".join(lines(x.text)), "\n".join(lines(y.text))))
        l = ["mode " + m]
        if case["crlf"]: l.append("crlf")
        if not any(s["queries"] or s["updates"] or s["roles"] for s in cfg["structs"]) and not cfg["enums"] and not cfg["bits"]: return []
        return l
def crlf(p):
    # only inside string literals: a newline there may be written CRLF; elsewhere it is white-space
    return p.replace("\r\n", "\n").replace("\n", "\r\n")
def strip(b):
    import re
    return re.sub(rb'original="[^"]*"', b"", b)
def lines(t): return sorted(x.strip().rstrip(",;") for x in t.split("\n") if x.strip() and not x.strip().startswith("--"))
def firstdiff(a, b):
    x = a.split("\n"); y = b.split("\n")
    for i in range(max(len(x), len(y))):
        p = x[i] if i < len(x) else None; q = y[i] if i < len(y) else None
        if p != q: return "line %d\n- %r\n+ %r" % (i + 1, p, q)
main(C)
