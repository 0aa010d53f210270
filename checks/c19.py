import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from h import *
import math, fractions, cshimlib, cgen, crun, model, ortgen
from ortgen import sdict, fdict

BASEV = {"bit": "kvalid_bit", "date": "kvalid_date", "epoch": "kvalid_int", "int": "kvalid_int", "real": "kvalid_double", "text": "kvalid_string",
         "password": "kvalid_string", "email": "kvalid_email", "enum": "kvalid_int", "bits": "kvalid_int"}
JUNK = [b"", b" ", b"x", b"-", b"+", b"1x", b"x1", b"1 ", b" 1", b"0x10", b"1e3", b"1.5", b"007", b"-0", b"+5", b"1\x00", b"nan", b"inf", b"9223372036854775807", b"9223372036854775808", b"-9223372036854775808", b"-9223372036854775809",
        b"1e999", b"1e-999", b"true", b"a@b.c", b"@b.c", b"a@b", b"a@b@c.d", b"2020-02-29", b"2019-02-29", b"1970-01-01", b"1969-12-31", b"0001-01-01", b"9999-12-31", b"2020-1-1", b"\xff\xfe", b"ab\x00cd", b"64", b"65", b"-1", b"0", b"1"]

def date(d):
    import datetime
    try: return (datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=d)).strftime("%Y-%m-%d").rjust(10, "0").encode()
    except (OverflowError, ValueError): return b"1970-01-02"

class C(Check):
    ID = "C19"
    N = {"quick": 800, "thorough": 30000}
    RULE = ("a generated configuration with limits, its validators compiled with a program that applies each field's validator (called directly, and through the table of validators) to values at and around every limit, at the bounds of the types, with declared and undeclared enumeration values, texts with lengths around the limits in characters of one or more bytes, and junk; "
            "accepted exactly when the basic validator of the type accepts and an independent evaluation of the limits (exact arithmetic) does; non-trivial: values of the right type accepted by a limit and others refused by one")
    ASSUME = ["kcgi(3)'s kvalid_bit, _date, _double, _email, _int and _string replaced by stand-ins following their manual; what they accept is taken as given"]
    def gen(self, r, i):
        T = {"int": 5, "text": 3, "real": 5, "blob": 2, "date": 3, "epoch": 3, "email": 2, "password": 1.5, "enum": 4, "bits": 2, "bit": 3}
        p = ortgen.Prof(structs=(1, 3), fields=(2, 9), enums=(1, 3), types=T, limits=.8, queries=(0, 1), updates=(0, 1), deletes=(0, 1), comments=.05, labels=0, roles=.15, exotic=.1, null=.2)
        cfg = ortgen.gen(r, p); vals = []
        for s in cfg["structs"]:
            for f in s["fields"]:
                if f["type"] == "real":
                    for l in f["limits"]:
                        if r.random() < .5: l[1] = self.real(r)
                    f["limits"] = [l for k, l in enumerate(f["limits"]) if not any(float(l[1]) == float(m[1]) and l[0] == m[0] for m in f["limits"][:k])]
                if f["type"] in ortgen.INTY and f["limits"] and r.random() < .15:
                    l = r.choice(f["limits"]); v = str(r.choice([2**63 - 1, -2**63 + 1, 2**31, -2**31, 2**32]))
                    if not any(l[0] == m[0] and int(m[1]) == int(v) for m in f["limits"]): l[1] = v
                if f["type"] != "struct":
                    for v in self.values(r, cfg, f): vals.append([s["name"], f["name"], v.hex()])
        return {"cfg": cfg, "vals": vals, "flags": r.choice(["v", "v", "jv", "Jv", "jJv"]), "asan": r.random() < .1, "cc": r.choice(["gcc", "clang"])}
    def real(self, r):
        v = r.choice([r.uniform(-10, 10), r.uniform(-1e6, 1e6), r.randint(-10**9, 10**9) / 8, 1234567.25, 16777217.0, 0.1234567890123, 123456789012.5, r.uniform(-1, 1) * 10 ** r.randint(-6, 6), float(r.randint(0, 2**53))])
        t = "%.*f" % (r.choice([1, 3, 6, 9, 12]), v)
        return t[:40]
    def values(self, r, cfg, f):
        t = f["type"]; out = set(r.sample(JUNK, 6)); L = [l[1] for l in f["limits"]]
        if t in crun.INTS and t != "date":
            for x in L + ["0"]:
                for d in (-1, 0, 1, r.randint(-100, 100)): out.add(b"%d" % (int(x) + d))
            out |= {b"%d" % x for x in r.sample([-2**63, 2**63 - 1, -2**63 + 1, 2**31, -2**31 - 1, 2**32, 10, 100, -100, 63, 64], 5)}
        elif t == "date":
            for x in L:
                d = max(-62135596800, min(int(x), 253402214400)) // 86400 * 86400
                for k in (-1, 0, 1): out.add(date(d + k * 86400))
            for _ in range(4): out.add(date(r.randint(-50000, 50000) * 86400))
        elif t == "real":
            for x in L + ["0.0"]:
                v = float(x)
                for y in (v, math.nextafter(v, math.inf), math.nextafter(v, -math.inf), v + 1, v - 1, v * (1 + 1e-7), v * (1 - 1e-7), -v): out.add(repr(y).encode())
                out.add(x.encode())
            for _ in range(3): out.add(repr(r.uniform(-1, 1) * 10 ** r.randint(-8, 12)).encode())
        elif t == "enum":
            E = list(ortgen.enumvals(model.edict(cfg)[f["enum"]]).values())
            for v in r.sample(E, min(len(E), 4)) + [max(E), min(E)]: out |= {b"%d" % v, b"%d" % (v + 1), b"%d" % (v - 1), b"%d" % -v}
            for v in E[:2]: out |= {b"%d" % (v + 2**32), b"%d" % (v - 2**32), b"%d" % (v % 2**32), b"%d" % (v ^ 2**31)}
        else:
            for x in L + ["3"]:
                for d in (-1, 0, 1):
                    n = min(int(x) + d, 2000)
                    if n < 0: continue
                    if t == "email":
                        if n >= 5: out.add(b"a" * (n - 4) + b"@b.c")
                        if n >= 6: out.add("é".encode() + b"a" * (n - 6) + b"@b.c")
                    else:
                        out.add(b"a" * n); m = "é€\U0001f600"; o = b""
                        while len(o) < n: o += r.choice(m).encode() if n - len(o) >= 4 else b"b"
                        out.add(o)
                        if t == "blob" and n: out.add(bytes(r.choice([0, 1, 255, 65]) for _ in range(n)))
                        if r.random() < .5: out.add("€".encode() * n)
            out.add(b"someone@example.org"); out.add(b"text")
        return sorted(out)
    def reductions(self, case):
        V = case["vals"]; n = len(V)
        for k in (n // 2, n // 4, n // 16, 1):
            if k < 1 or k >= n: continue
            if n // k > 40: continue
            for i in range(0, n, k): yield dict(case, vals=V[i:i + k])
        if case["asan"]: yield dict(case, asan=False)
        yield from super().reductions(case)
    def sample(self, case):
        d = {k: v for k, v in case.items() if k not in ("cfg", "vals")}; d["cfg"] = ortgen.pretty(case["cfg"])
        d["vals"] = ["%s.%s %r" % (a, b, bytes.fromhex(c)) for a, b, c in case["vals"][:40]]
        return d
    def driver(self, cfg):
        o = ['#include <sys/queue.h>\n#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <stdint.h>\n#include <inttypes.h>\n#include <time.h>\n#include <kcgi.h>\n#include "db.h"\n',
             'static void pr(struct kpair *k) { if (k->type == KPAIR_INTEGER) printf(" i%" PRId64, k->parsed.i); else if (k->type == KPAIR_DOUBLE) printf(" r%a", k->parsed.d); else printf(" s"); }\n',
             'struct fn { const char *n; int (*v)(struct kpair *); int (*base)(struct kpair *); int key; };\nstatic const struct fn fns[] = {\n']
        for s in cfg["structs"]:
            for f in s["fields"]:
                if f["type"] == "struct": continue
                o.append('\t{ "%s-%s", valid_%s_%s, %s, VALID_%s_%s },\n' % (s["name"], f["name"], s["name"], f["name"], BASEV.get(f["type"], "NULL"), s["name"].upper(), f["name"].upper()))
        o.append(r'''	{ NULL, NULL, NULL, 0 } };
static char *cp(const char *h, size_t *n) { char *b; size_t i; *n = strlen(h) / 2; b = malloc(*n + 1); for (i = 0; i < *n; i++) { unsigned x; sscanf(h + 2 * i, "%2x", &x); b[i] = x; } b[*n] = 0; return b; }
static void app(int (*fn)(struct kpair *), const char *name, const char *h)
{
	struct kpair k; int rc; memset(&k, 0, sizeof(k));
	if (fn == NULL) { printf(" -"); return; }
	k.val = cp(h, &k.valsz); k.key = (char *)name;
	rc = fn(&k); printf(" %d", !!rc); if (rc) pr(&k);
	free(k.val);
}
int main(void)
{
	static char l[65536]; size_t i; char *sp;
	for (i = 0; i < VALID__MAX; i++) printf("%s%s", i ? " " : "", valid_keys[i].name);
	printf("\n%d\n", (int)(sizeof(valid_keys) / sizeof(valid_keys[0])));
	while (fgets(l, sizeof(l), stdin)) {
		l[strcspn(l, "\n")] = 0; sp = strchr(l, ' '); *sp++ = 0;
		for (i = 0; fns[i].n; i++) if (!strcmp(fns[i].n, l)) break;
		printf("b"); app(fns[i].base, l, sp); printf(" v"); app(fns[i].v, l, sp); printf(" k"); app(valid_keys[fns[i].key].valid, l, sp);
		printf(" n %s\n", valid_keys[fns[i].key].name); fflush(stdout);
	}
	return 0;
}
''')
        return "".join(o)
    def run(self, ctx, case):
        cfg = case["cfg"]; f = ctx.cfg(cfg); S = sdict(cfg)
        if ctx.tool("ort", f).rc: raise Skip("refused")
        V = [v for v in case["vals"] if v[0] in S and v[1] in fdict(S[v[0]]) and fdict(S[v[0]])[v[1]]["type"] != "struct"]
        if not any(x["type"] != "struct" for s in cfg["structs"] for x in s["fields"]): raise Skip("no fields")
        ctx.write("db.h", ctx.ok("ort-c-header", "-" + case["flags"], f).out)
        ctx.write("db.c", ctx.ok("ort-c-source", "-" + case["flags"], "-S", ctx.dirs["plain"], f).out)
        ctx.write("drv.c", self.driver(cfg))
        exe = os.path.join(ctx.scratch, "drv")
        sf = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-g"] if case["asan"] else []
        r = run(["gcc" if case["asan"] else case["cc"], "-std=gnu11", "-O0", "-w"] + sf + cgen.INC + ["-I" + ctx.scratch, "-o", exe, os.path.join(ctx.scratch, "db.c"), os.path.join(ctx.scratch, "drv.c"), cshimlib.get(case["asan"]), "-lsqlite3", "-lm", "-lresolv"], cwd=ctx.scratch)
        if r.rc: raise Bad("the validators do not compile", r.errtext[:3000])
        r = run([exe], "".join("%s-%s %s\n" % tuple(v) for v in V), cwd=ctx.scratch)
        out = r.text.split("\n")
        want = {"%s-%s" % (s["name"], x["name"]) for s in cfg["structs"] for x in s["fields"] if x["type"] != "struct"}
        if len(out) < 2 or sorted(out[0].split()) != sorted(want) or int(out[1]) != len(want): raise Bad("validators: fields in the table", "%s\nnot %s" % (out[:2], sorted(want)))
        labels = ["flags " + case["flags"]]
        for (sn, fn, hx), l in zip(V, out[2:] + [""] * len(V)):
            F = fdict(S[sn])[fn]; b = bytes.fromhex(hx)
            say = "%s.%s: %s, limits %s\nvalue %r\nprogram: %s" % (sn, fn, F["type"] + (" " + F["enum"] if F["enum"] else ""), F["limits"], b, l)
            w = l.split()
            if r.rc and not l: raise Bad("validators: the program stopped", "%s\n%s\n%s" % (r.rc, say, r.errtext[-3000:]))
            P = {}; cur = None
            for x in w:
                if x in ("b", "v", "k", "n"): cur = x; P[x] = []
                else: P[cur].append(x)
            if P["n"] != ["%s-%s" % (sn, fn)]: raise Bad("validators: name in the table", say)
            base = P["b"][0] != "0"; num = None
            if base and len(P["b"]) > 1 and P["b"][1] != "s": num = int(P["b"][1][1:]) if P["b"][1][0] == "i" else float.fromhex(P["b"][1][1:])
            if isinstance(num, float) and math.isnan(num): continue
            ok = base; lim = None
            if ok and F["type"] == "enum":
                ok = lim = num in ortgen.enumvals(model.edict(cfg)[F["enum"]]).values()
            if ok:
                for op, v in F["limits"]:
                    if F["type"] == "real":
                        if math.isinf(num): x, y = num, float(v)
                        else: x, y = fractions.Fraction(num), fractions.Fraction(float(v))
                    elif F["type"] in ortgen.TEXTY: x, y = len(b), int(v)
                    else: x, y = num, int(v)
                    k = {"eq": x == y, "gt": x > y, "ge": x >= y, "lt": x < y, "le": x <= y}[op]
                    lim = k if lim is None else lim and k
                ok = ok and lim is not False
            for who in ("v", "k"):
                got = P[who][0] != "0"
                if got != ok:
                    raise Bad("validators: %s" % ("a value outside the type or limits is accepted" if got else "a permitted value is refused"), "%s\n%s" % (say, "through valid_keys" if who == "k" else "directly"))
                if got and P["b"][0] == "1" and P[who][1:] and P[who][1:] != P["b"][1:]: raise Bad("validators: parsed value", say)
            labels.append("%s %s" % (F["type"], "not of the type" if not base else "no limits" if lim is None else "in limits" if lim else "outside"))
        if r.rc: raise Bad("validators: the program stopped", "%s\n%s" % (r.rc, r.errtext[-3000:]))
        return labels
    def nontrivial(self, l): return any(x.endswith("in limits") for x in l) and any(x.endswith("outside") for x in l)
if __name__ == "__main__": main(C)
