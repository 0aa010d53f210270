import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from h import *
import cgen, ortgen, json, re, nodesrv, nrun

JS = None
def jsnode():
    global JS
    if JS is None: JS = nodesrv.Node("jrun.js")
    return JS
PRE = "#include <sys/queue.h>\n#include <stdio.h>\n#include <stdint.h>\n#include <inttypes.h>\n#include <stdlib.h>\n#include <time.h>\n#include <sqlbox.h>\n#include <kcgi.h>\n#include <kcgijson.h>\n"
def signed(v): return v - 2**64 if v >= 2**63 else v

def rustc():
    """The compiler itself, as rustup's stand-in needs the environment."""
    o = subprocess.run(["rustc", "--print", "sysroot"], stdout=subprocess.PIPE, env=dict({"HOME": "/root"}, **os.environ)).stdout.decode().strip()
    return os.path.join(o, "bin", "rustc") if o else "rustc"

class C(Check):
    ID = "C24"
    N = {"quick": 500, "thorough": 30000}
    RULE = ("a generated configuration of enumerations (written values, extreme ones, automatic ones, negative ones) and bit-fields (any indices, 0 and 63 favoured), written in a random presentation; the constants are read back from the compiled C header, "
            "the executed TypeScript module, the executed JavaScript, the compiled Rust enumerations and the JSON description, and compared with the values of the model; also of the configuration as printed again by ort and as read from its JSON; "
            "non-trivial: an enumeration or a bit-field with two items")
    ASSUME = ["gcc, node with the TypeScript compiler, rustc; the Rust enumerations are compiled by themselves, without the derived traits, whose crates are not installed"]
    def setup(self, dirs): self.rustc = rustc()
    def gen(self, r, i):
        p = ortgen.Prof(structs=(1, 2), enums=(0, 4), bits=(0, 4), int32enums=False, queries=(0, 1))
        cfg = ortgen.gen(r, p)
        for e in cfg["enums"]:
            if r.random() < .25 and e["items"]:      # values close together, at the bounds or all automatic
                k = r.random(); n = len(e["items"])
                if k < .3:
                    for x in e["items"]: x["value"] = None
                elif k < .6:
                    b = r.choice([-n // 2, -(2**63 - 1), 2**63 - 1 - n, 2**31 - 2, -2**31 - 1, 2**32 - 2, 2**53 - 1]); o = list(range(b, b + n)); r.shuffle(o)
                    for x, v in zip(e["items"], o): x["value"] = v
                else:
                    b = r.choice([-3, -1, 0, 2**31 - 1, 2**53, 2**63 - 1 - n, -(2**63 - 1)])
                    for x in e["items"]: x["value"] = None
                    r.choice(e["items"])["value"] = b
        return {"cfg": cfg, "via": r.choice(["file", "file", "ort", "json"]), "seed": r.randint(0, 2**32)}
    def run(self, ctx, case):
        cfg = case["cfg"]; r = random.Random(case["seed"])
        f = ctx.cfg(cfg, "a.ort", ortgen.Style(r))
        if ctx.tool("ort", f).rc: raise Skip("refused")
        if not cfg["enums"] and not cfg["bits"]: return []
        EN = {e["name"]: ortgen.enumvals(e) for e in cfg["enums"]}
        BI = {b["name"]: {x["name"]: x["value"] for x in b["items"]} for b in cfg["bits"]}
        self.json(ctx, cfg, f, EN, BI)
        if case["via"] == "ort":
            ctx.write("b.ort", ctx.ok("ort", f).out); f = os.path.join(ctx.scratch, "b.ort")
        elif case["via"] == "json":
            # what the JSON description says of the values, written as a configuration
            j = json.loads(ctx.ok("ort-json", f).text)["config"]
            d = copy.deepcopy(cfg)
            for e in d["enums"]:
                for x in e["items"]:
                    v = j["eq"][e["name"]]["eq"][x["name"]]["value"]; x["value"] = None if v is None else int(v)
            for b in d["bits"]:
                for x in b["items"]: x["value"] = int(j["bq"][b["name"]]["bq"][x["name"]]["value"])
            f = ctx.cfg(d, "b.ort", ortgen.Style(r))
            if ctx.tool("ort", f).rc: raise Bad("JSON: the values are not accepted again", ctx.tool("ort", f).errtext)
        self.c(ctx, cfg, f, EN, BI); self.ts(ctx, f, EN, BI); self.js(ctx, f, EN, BI); self.rust(ctx, f, EN, BI)
        lab = []
        V = [v for d in EN.values() for v in d.values()]
        if any(len(d) > 1 for d in EN.values()): lab.append("enumeration")
        if any(len(d) > 1 for d in BI.values()): lab.append("bit-field")
        if any(x["value"] is None for e in cfg["enums"] for x in e["items"]): lab.append("automatic")
        if any(x["value"] is None for e in cfg["enums"] for x in e["items"]) and any(x["value"] is not None for e in cfg["enums"] for x in e["items"]): lab.append("automatic after written")
        if any(v < 0 for v in V): lab.append("negative")
        if any(abs(v) > 2**53 for v in V): lab.append("beyond 2^53")
        if any(63 in d.values() for d in BI.values()): lab.append("bit 63")
        if any(0 in d.values() for d in BI.values()): lab.append("bit 0")
        return lab + [case["via"]] if "enumeration" in lab or "bit-field" in lab else []
    def cmp(self, what, got, want):
        if got == want: return
        D = []
        for k in sorted(set(got) | set(want)):
            if got.get(k) != want.get(k): D.append("%s: %s, not %s" % (k, got.get(k, "absent"), want.get(k, "absent")))
        raise Bad(what + ": the constants are not those of the configuration", "\n".join(D))
    def json(self, ctx, cfg, f, EN, BI):
        j = json.loads(ctx.ok("ort-json", f).text)["config"]
        got = {}; want = {}
        for e in cfg["enums"]:
            for x in e["items"]:
                v = j["eq"][e["name"]]["eq"][x["name"]]["value"]; k = e["name"] + "." + x["name"]
                # an automatic value may be left out
                want[k] = str(EN[e["name"]][x["name"]]) if x["value"] is not None or v is not None else None; got[k] = v
        for b in cfg["bits"]:
            for x in b["items"]:
                k = b["name"] + "." + x["name"]; got[k] = j["bq"][b["name"]]["bq"][x["name"]]["value"]
                want[k] = str(x["value"])
                if isinstance(got[k], int): got[k] = str(got[k])
        self.cmp("JSON", got, want)
    def c(self, ctx, cfg, f, EN, BI):
        ctx.write("db.h", ctx.ok("ort-c-header", f).out)
        P = []; want = {}
        for e, d in EN.items():
            for n, v in d.items():
                k = "%s_%s" % (e.upper(), n); want[k] = "i%d" % v; P.append('\tprintf("%s i%%" PRId64 "\\n", (int64_t)%s);\n' % (k, k))
            # usable as the type of a field
            P.append("\t{ enum %s e = %s_%s; (void)e; }\n" % (e, e.upper(), next(iter(d))))
        for b, d in BI.items():
            for n, v in d.items():
                k = "BITI_%s_%s" % (b.upper(), n); want[k] = "i%d" % v; P.append('\tprintf("%s i%%" PRId64 "\\n", (int64_t)%s);\n' % (k, k))
                k = "BITF_%s_%s" % (b.upper(), n); want[k] = "u%d" % (1 << v); P.append('\tprintf("%s u%%" PRIu64 "\\n", (uint64_t)%s);\n' % (k, k))
            k = "BITI_%s__MAX" % b.upper(); want[k] = "i%d" % (max(d.values()) + 1); P.append('\tprintf("%s i%%" PRId64 "\\n", (int64_t)%s);\n' % (k, k))
        ctx.write("main.c", PRE + '#include "db.h"\nint main(void) {\n' + "".join(P) + "\treturn 0;\n}\n")
        c = cgen.cc(ctx, "main.c", "main.o")
        if c.rc: raise Bad("C: the header with the constants does not compile", c.errtext[:3000])
        x = os.path.join(ctx.scratch, "main")
        c = run(["gcc", "-o", x, x + ".o"])
        if c.rc: raise Bad("C: the program does not link", c.errtext[:2000])
        c = run([x])
        self.cmp("C", dict(l.split() for l in c.text.splitlines()), want)
    def ts(self, ctx, f, EN, BI):
        src = nrun.source(ctx, f, "module"); N = nrun.node()
        a = N.ask({"cmd": "nbuild", "check": False, "src": src})
        if a.get("errs"): raise Bad("TypeScript: the module does not load", "\n".join(a["errs"][:5]))
        v = N.ask({"cmd": "nconst", "id": a["id"], "names": list(EN) + list(BI)})
        if "v" not in v: raise RuntimeError(v)
        want = {e + "." + n: str(x) for e, d in EN.items() for n, x in d.items()}
        for b, d in BI.items():
            for n, x in d.items(): want["%s.BITI_%s" % (b, n)] = str(x); want["%s.BITF_%s" % (b, n)] = str(1 << x)
        self.cmp("TypeScript", {t + "." + k: x for t, d in v["v"].items() for k, x in (d or {}).items()}, want)
    def js(self, ctx, f, EN, BI):
        src = ctx.ok("ort-javascript", "-S", ctx.dirs["plain"], f).text; N = jsnode()
        a = N.ask({"cmd": "jbuild", "src": src, "check": False})
        if a.get("errs"): raise Bad("JavaScript: the script does not load", "\n".join(a["errs"][:5]))
        v = N.ask({"cmd": "jconst", "names": list(EN) + list(BI)})
        if "v" not in v: raise RuntimeError(v)
        want = {e + "." + n: "s%d" % x for e, d in EN.items() for n, x in d.items()}
        for b, d in BI.items():
            for n, x in d.items(): want["%s.BITI_%s" % (b, n)] = "n%d" % x; want["%s.BITF_%s" % (b, n)] = "l%d" % signed(1 << x)
            want[b + ".BITI__MAX"] = "n%d" % (max(d.values()) + 1)
        got = {t + "." + k: x for t, d in v["v"].items() for k, x in d.items() if k not in ("length", "name", "prototype")}
        # a 64-bit constant may be signed or not
        for k in got:
            if got[k][0] == "l" and k in want and want[k][0] == "l": got[k] = "l%d" % signed(int(got[k][1:]))
        self.cmp("JavaScript", got, want)
    def rust(self, ctx, f, EN, BI):
        out = ctx.ok("ort-rust", f).text
        o = []; P = []; want = {}; have = {}
        for m in re.finditer(r"^[ \t]*pub enum (\w+) \{([^{}]*)\}", out, re.M): have.setdefault(m[1], m[0])
        tit = lambda n: n[:1].upper() + n[1:]
        for t, d in list(EN.items()) + list(BI.items()):
            T = tit(t)
            if T not in have: raise Bad("Rust: the enumerations of the configuration are not those printed", "%s is absent\n%s" % (T, sorted(have)))
            o.append("#[allow(dead_code)]\n" + have[T] + "\n")
            for n, v in d.items():
                k = T + "::" + tit(n); want[k] = str(v); P.append('    println!("%s {}", %s as i64);\n' % (k, k))
        ctx.write("main.rs", "".join(o) + "fn main() {\n" + "".join(P) + "}\n"); x = os.path.join(ctx.scratch, "mainrs")
        c = run([self.rustc, "--edition", "2021", "-A", "warnings", "-o", x, os.path.join(ctx.scratch, "main.rs")], timeout=120)
        if c.rc: raise Bad("Rust: the enumerations do not compile", c.errtext[:3000])
        c = run([x])
        self.cmp("Rust", dict(l.split() for l in c.text.splitlines()), want)

if __name__ == "__main__": main(C)
