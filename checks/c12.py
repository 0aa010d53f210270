import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from h import *
import cgen, model, re
PRE = "#include <sys/queue.h>\n#include <stdio.h>\n#include <stdint.h>\n#include <stdlib.h>\n#include <time.h>\n#include <sqlbox.h>\n#include <kcgi.h>\n#include <kcgijson.h>\n"
class C(Check):
    ID = "C12"
    N = {"quick": 350, "thorough": 40000}
    RULE = ("a generated configuration and a random choice of output options (JSON output and input, validators, safe types, one pair of files or the pieces in files of their own); the header and the source are compiled; "
            "the functions the model names, those the header declares, those the object files define and those of the manual page are compared; everything is linked into one program; non-trivial: at least one operation and one option")
    ASSUME = ["gcc 13 as the compiler; headers of sqlbox(3), kcgi(3) written for this check with the documented interfaces"]
    def gen(self, r, i):
        p = ortgen.Prof(structs=(1, 5), int32enums=r.random() < .5)
        cfg = ortgen.gen(r, p)
        fl = "".join(x for x in "jJv" if r.random() < .6)
        return {"cfg": cfg, "flags": fl, "safe": r.random() < .35, "split": r.random() < .35, "seed": r.randint(0, 2**32)}
    def reductions(self, case):
        yield from super().reductions(case)
        for k in ("safe", "split"):
            if case[k]: d = dict(case); d[k] = False; yield d
        for x in case["flags"]: d = dict(case); d["flags"] = case["flags"].replace(x, ""); yield d
    def run(self, ctx, case):
        cfg = case["cfg"]; r = random.Random(case["seed"]); fl = case["flags"]; s = "-s" if case["safe"] else None
        names = cgen.opnames(cfg)
        if len(names) != len(set(names)): raise Skip("two operations of one name")
        f = ctx.cfg(cfg, "a.ort", ortgen.Style(r))
        if ctx.tool("ort", f).rc: raise Skip("refused")
        A = [s] if s else []
        def cov(name, *a): return ctx.ok(name, *([x for x in a if x] + [f])).out
        if not case["split"]:
            o = "-" + fl if fl else None
            ctx.write("db.h", cov("ort-c-header", o, s)); ctx.write("db.c", cov("ort-c-source", o, "-S", ctx.dirs["plain"]))
            files = {"db": (["db.h"], fl, True)}
        else:
            ctx.write("db.h", cov("ort-c-header", s)); ctx.write("db.c", cov("ort-c-source"))
            files = {"db": (["db.h"], "", True)}
            for x in fl:
                nm = {"j": "json", "J": "jsmn", "v": "val"}[x]
                ctx.write(nm + ".h", cov("ort-c-header", "-g", nm.upper() + "_H", "-" + x, "-Nbd", s))
                ctx.write(nm + ".c", cov("ort-c-source", "-" + x, "-Nd", "-Id" + ({"j": "j", "v": "v"}.get(x, "")), "-h", "db.h,%s.h" % nm, "-S", ctx.dirs["plain"]))
                files[nm] = (["db.h", nm + ".h"], x, False)
        allh = ["db.h"] + [n + ".h" for n in files if n != "db"]
        proto = {}
        for n, (hh, x, db) in files.items():
            d = cgen.declared(ctx, hh, PRE)
            if n != "db":
                d0 = cgen.declared(ctx, ["db.h"], PRE); d = {k: v for k, v in d.items() if k not in d0}
            c = cgen.cc(ctx, n + ".c", n + ".o")
            if c.rc: raise Bad("the C source does not compile", c.errtext[:3000])
            t = cgen.defined(ctx, n + ".o"); want = cgen.functions(cfg, x, db)
            if set(d) != want: raise Bad("the header does not declare the interface of the configuration", "%s\nmissing %s\nsuperfluous %s" % (n, sorted(want - set(d)), sorted(set(d) - want)))
            if t != want: raise Bad("the source does not define what the header declares", "%s\nmissing %s\nsuperfluous %s" % (n, sorted(want - t), sorted(t - want)))
            proto.update(d)
        # all headers together, in one program which refers to everything
        ctx.write("all.c", PRE + "".join('#include "%s"\n' % x for x in allh) + "const void *const tab[] = {\n" + "".join("\t(const void *)%s,\n" % x for x in sorted(proto)) +
                  ("\tvalid_keys,\n" if "v" in fl else "") + "\tNULL };\nint main(int argc, char *argv[]) { return tab[argc + sizeof(tab) / sizeof(tab[0]) - 2] != NULL; }\n")
        c = cgen.cc(ctx, "all.c", "all.o")
        if c.rc: raise Bad("the headers do not compile together", c.errtext[:3000])
        c = run(["gcc", "-o", os.path.join(ctx.scratch, "all")] + [os.path.join(ctx.scratch, n + ".o") for n in ["all"] + list(files)] + [self.shim, "-lsqlite3", "-lm", "-lresolv"])
        if c.rc: raise Bad("the program does not link", c.errtext[:3000])
        # twice included
        ctx.write("twice.c", PRE + "".join('#include "%s"\n' % x for x in allh + allh))
        c = cgen.cc(ctx, "twice.c", "twice.o")
        if c.rc: raise Bad("the header cannot be included twice", c.errtext[:2000])
        self.manpage(ctx, cfg, f, fl, proto)
        lab = ["flag " + x for x in fl] + (["safe types"] if s else []) + (["several files"] if case["split"] else []) + (["operations"] if names else [])
        return lab if names and (fl or s) else []
    def manpage(self, ctx, cfg, f, fl, proto):
        man = ctx.ok("ort-c-manpage", *(["-" + fl] if fl else []), f).text
        syn = man.split("\n.Sh SYNOPSIS\n")[1].split("\n.Sh ")[0]
        got = re.findall(r"^\.Fo (\w+)((?:\n\.Fa .*)*)\n\.Fc", syn, re.M)
        if len(re.findall(r"^\.Fo ", syn, re.M)) != len(got): raise Bad("the synopsis of the manual page is malformed", syn[:3000])
        have = {}
        for n, a in got:
            if n in have: raise Bad("the manual page has a function twice", n)
            have[n] = a.count("\n.Fa ")
        want = set(cgen.opnames(cfg)) | {"db_open", "db_close"}
        full = cgen.functions(cfg, fl)
        want |= {n for n in full if n.startswith("json_") or n.startswith("jsmn_") and n != "jsmn_eq"}
        if want - set(have): raise Bad("the manual page lacks functions of the interface", sorted(want - set(have)))
        if set(have) - full: raise Bad("the manual page has functions which do not exist", sorted(set(have) - full))
        for n in have:
            p = proto[n]; a = p[p.index(n + " (") + len(n) + 2:]
            depth = 0; k = 1
            for ch in a:
                if ch == "(": depth += 1
                elif ch == ")":
                    if depth == 0: break
                    depth -= 1
                elif ch == "," and depth == 0: k += 1
            if n == "db_open_logging": k = have[n]
            if have[n] != k: raise Bad("the manual page gives a function with another number of arguments", "%s: %d, not %d\n%s" % (n, have[n], k, p))
    def setup(self, dirs):
        import cshimlib
        self.shim = cshimlib.get()
    def nontrivial(self, labels): return bool(labels)
if __name__ == "__main__": main(C)
