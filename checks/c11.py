import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from h import *
import copy, re
import xml.etree.ElementTree as ET
NS = "{urn:oasis:names:tc:xliff:document:1.2}"
def slots(cfg):
    """(labels, kind): the translatable labels of a configuration in document order."""
    for e in cfg["enums"]:
        for i in e["items"]: yield i["labels"], "item"
    for e in cfg["enums"]:
        if deflab(e["isnull"]) is not None: yield e["isnull"], "null"
    for b in cfg["bits"]:
        for i in b["items"]: yield i["labels"], "item"
        yield b["isunset"], "bit"
        yield b["isnull"], "bit"
def deflab(l): return dict(l).get("")
def esc(s, r=None):
    o = ""
    for c in s:
        if c == "&": o += "&amp;"
        elif c == "<": o += "&lt;"
        elif c == ">" and (r is None or r.random() < .7): o += "&gt;"
        elif c == '"' and r and r.random() < .5: o += "&quot;"
        elif c == "'" and r and r.random() < .5: o += "&apos;"
        else: o += c
    return o
def totext(s):
    """Label text for a translation: quotes without a backslash get one."""
    o = ""
    for i, c in enumerate(s):
        if c == '"' and (i == 0 or s[i - 1] != "\\"): o += "\\"
        o += c
    return o
class C(Check):
    ID = "C11"
    N = {"quick": 10000, "thorough": 60000}
    RULE = ("a generated configuration with labels: extraction is parsed as XML and compared with the distinct default labels of the model; one or two translation files (shuffled units, dropped and stale units, random targets, entities, "
            "attributes) are joined, and the result compared byte for byte with ort(1)'s formatting of the model to which the translations were added (or must be refused when a label or translation is missing); updates are compared "
            "with the union of the file's units and the current labels; non-trivial: at least two labels and a successful join or update")
    def gen(self, r, i):
        p = ortgen.Prof(exotic=r.choice([0, .4, .9]), labels=r.choice([.3, 1, 1]), structs=(1, 2), enums=(1, 3), bits=(0, 2), queries=(0, 1))
        cfg = ortgen.gen(r, p)
        full = r.random() < .75
        for l, k in slots(cfg):
            if full and deflab(l) is None: l.insert(r.randint(0, len(l)), ["", ortgen.literal(r, p, 1)])
        if full:
            for e in cfg["enums"]:
                if e["isnull"] and deflab(e["isnull"]) is None: e["isnull"].append(["", ortgen.literal(r, p, 1)])
        labs = sorted({deflab(l) for l, k in slots(cfg) if deflab(l)})
        if labs and r.random() < .6:      # the same label in several places
            for l, k in slots(cfg):
                if deflab(l) is not None and r.random() < .3:
                    for x in l:
                        if x[0] == "": x[1] = r.choice(labs)
        files = []
        labs = sorted({deflab(l) for l, k in slots(cfg) if deflab(l)})
        for lang in r.sample(["en", "fr", "xx1", "de", "SV"], r.choice([1, 1, 2])):
            us = [[s, self.target(r, p)] for s in labs if r.random() < r.choice([1, 1, .8])]
            for _ in range(r.choice([0, 0, 1, 3])):
                s = ortgen.literal(r, p, 1)
                if s not in labs and all(x[0] != s for x in us) and s.strip(): us.append([s, self.target(r, p)])
            r.shuffle(us)
            files.append([lang, us])
        return {"cfg": cfg, "files": files, "seed": r.randint(0, 2**32), "copy": r.random() < .4, "stdin": r.random() < .2}
    def target(self, r, p):
        s = ortgen.literal(r, p, 1)
        if r.random() < .1: s = s.replace("\\\"", '"')
        if r.random() < .1: s += "&#%d;" % r.choice([65, 169, 60])
        return s
    def xliff(self, f, r):
        lang, us = f
        esc = lambda s, r=None: re.sub("&amp;(#[0-9]+;)", "&\\1", globals()["esc"](s, r))   # numbered entities are verbatim (ort-xliff(1))
        o = ["<?xml version=\"1.0\"?>\n"] if r.random() < .3 else []
        o.append('<xliff version="1.2" xmlns="urn:oasis:names:tc:xliff:document:1.2">\n<file source-language="en" original="%s" target-language="%s" datatype="plaintext">\n<body>\n' % (esc("a&'b.ort"), lang))
        ids = [str(n + 1) for n in range(len(us))]
        if r.random() < .6: ids = r.sample([str(n) for n in range(2 * len(us) + 4)] + ["u1", "a&'b", "\u65e5", "01"], len(us))
        self.ids = dict(zip([s for s, t in us], ids))
        for n, (s, t) in enumerate(us):
            x = "<source>%s</source>" % esc(s, r)
            y = "" if t is None else "<target>%s</target>" % esc(t, r)
            o.append('<trans-unit id="%s"%s>%s</trans-unit>\n' % (esc(ids[n]), ' xml:space="preserve"' if r.random() < .1 else "", x + r.choice(["", "\n", "  "]) + y))
        o.append("</body></file></xliff>\n")
        return "".join(o)
    def units(self, data, what):
        try: root = ET.fromstring(data)
        except ET.ParseError as e: raise Bad("%s is not well-formed XML" % what, str(e) + "\n" + data.decode("utf-8", "replace")[:3000])
        if root.tag != NS + "xliff" or len(root) != 1 or root[0].tag != NS + "file": raise Bad("%s is not an XLIFF document" % what)
        out = []; ids = set(); self.byid = {}
        for b in root[0]:
            for u in b:
                if u.tag != NS + "trans-unit": raise Bad("%s has an unknown element" % what, u.tag)
                if u.get("id") in ids: raise Bad("%s repeats an identifier" % what, u.get("id"))
                ids.add(u.get("id")); self.byid[(u.find(NS + "source").text or "")] = u.get("id")
                s = u.find(NS + "source"); t = u.find(NS + "target")
                out.append((s.text or "", None if t is None else (t.text or "")))
        return root[0], out
    def run(self, ctx, case):
        cfg = case["cfg"]; r = random.Random(case["seed"])
        a = ctx.cfg(cfg); labels = []
        # what the tool sees as raw text: CRLF is not generated, so the text is as written
        cur = sorted({deflab(l) for l, k in slots(cfg) if deflab(l) is not None}, key=lambda s: s.encode())
        if len(cur) >= 2: labels.append("labels")
        x = ctx.ok("ort-xliff", a)
        fe, us = self.units(x.out, "extraction")
        if [s for s, t in us] != cur: raise Bad("extraction: units differ from the labels", "got  %r\nwant %r" % ([s for s, t in us], cur))
        if any(t for s, t in us): raise Bad("extraction: targets without -c", repr(us))
        if fe.get("original") != a: raise Bad("extraction: original attribute", fe.get("original"))
        x = ctx.ok("ort-xliff", "-c", a)
        fe, us = self.units(x.out, "extraction -c")
        if us != [(s, s) for s in cur]: raise Bad("extraction -c: units differ from the labels", "got  %r\nwant %r" % (us, cur))
        # join
        names = []; ids = []
        for i, f in enumerate(case["files"]): names.append(ctx.write("t%d.xliff" % i, self.xliff(f, r))); ids.append(self.ids)
        exp = copy.deepcopy(cfg); bad = None
        for lang, fus in case["files"]:
            d = {}
            for s, t in fus: d.setdefault(s, t)
            for l, k in slots(exp):
                src = deflab(l)
                if src is None: bad = "label without a default"; break
                if src not in d and not case["copy"]: bad = "no translation"; break
                if any(x[0] == lang.lower() for x in l): continue
                t = d.get(src, src)
                if t == "" or t.endswith("\\"): bad = "not a label"; break
                l.append([lang.lower(), totext(t)])
            if bad: break
        fl = ["-c"] if case["copy"] else []
        if len(names) == 1 and case["stdin"]: j = ctx.tool("ort-xliff", *fl, "-j", a, stdin=open(names[0], "rb").read())
        elif len(names) == 1 and r.random() < .5: j = ctx.tool("ort-xliff", *fl, "-j", a, names[0])
        else: j = ctx.tool("ort-xliff", *fl, "-j", a, "-x", *names)
        if bad:
            if j.rc == 0 or j.out: raise Bad("join: accepted although there is a problem (%s)" % bad, j.text[:2000])
            if not j.err.strip(): raise Bad("join: refused without a diagnostic")
            labels.append("join refused: " + bad)
        else:
            if j.rc != 0: raise Bad("join: refused (%s)" % j.rc, j.errtext[:2000])
            w = ctx.ok("ort", ctx.cfg(exp, "exp.ort"))
            if w.out != j.out:
                raise Bad("join: result differs from the translated model", "got:\n" + j.text[:3000] + "\nwant:\n" + w.text[:3000])
            labels.append("joined %d" % len(names))
            # the translated configuration has the same material
            again = ctx.ok("ort-xliff", ctx.write("j.ort", j.out))
            if [s for s, t in self.units(again.out, "extraction after join")[1]] != cur: raise Bad("extraction: differs after joining", again.text[:2000])
        # update
        lang, fus = case["files"][0]
        u = ctx.tool("ort-xliff", *fl, "-u", a, names[0]) if not case["stdin"] else ctx.tool("ort-xliff", *fl, "-u", a, stdin=open(names[0], "rb").read())
        if any(deflab(l) is None for l, k in slots(cfg)):
            if u.rc == 0 or u.out: raise Bad("update: accepted although a label is missing", u.text[:2000])
            if not u.err.strip(): raise Bad("update: refused without a diagnostic")
        else:
            if u.rc != 0: raise Bad("update: refused (%s)" % u.rc, u.errtext[:2000])
            fe, us = self.units(u.out, "update")
            have = [s for s, t in fus]
            want = sorted(fus + [[s, s if case["copy"] else None] for s in cur if s not in have], key=lambda x: x[0].encode())
            if sorted(map(list, us), key=lambda x: x[0].encode()) != want: raise Bad("update: units differ", "got  %r\nwant %r" % (us, want))
            if any(self.byid.get(s) != k for s, k in ids[0].items()): raise Bad("update: a unit changes its identifier", repr((self.byid, ids[0])))
            if fe.get("target-language") != lang or fe.get("source-language") != "en" or fe.get("original") != "a&'b.ort": raise Bad("update: attributes of the file are lost", repr(fe.attrib))
            labels.append("updated")
            if case["copy"] or len(want) == len(fus):
                u2 = ctx.ok("ort-xliff", *fl, "-u", a, ctx.write("u.xliff", u.out))
                if u2.out != u.out: raise Bad("update: not idempotent", u2.text[:2000])
        return labels
    def nontrivial(self, labels): return "labels" in labels and ("updated" in labels or any(x.startswith("joined") for x in labels))
    def reductions(self, case):
        for i in range(len(case["files"])):
            if len(case["files"]) > 1:
                d = dict(case); d["files"] = case["files"][:i] + case["files"][i + 1:]; yield d
            for j in range(len(case["files"][i][1])):
                d = copy.deepcopy(case); del d["files"][i][1][j]; yield d
        yield from super().reductions(case)
        for i in range(len(case["files"])):
            for j, (s, t) in enumerate(case["files"][i][1]):
                if len(t) > 1:
                    d = copy.deepcopy(case); d["files"][i][1][j][1] = t[:len(t) // 2]; yield d
                    d = copy.deepcopy(case); d["files"][i][1][j][1] = t[len(t) // 2:]; yield d
main(C)
