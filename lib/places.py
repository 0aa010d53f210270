"""Where things are written: texts of token lists in a random layout, with the place of every token and of every object."""
import ortgen
from ortgen import *

class Tok:
    __slots__ = ("s", "file", "line", "c0", "c1", "n")
    def __init__(self, s): self.s = s
    @property
    def w(self): return self.s.lower() if self.s[:1] != '"' else None

def mktoks(cfg, st, nfiles, r):
    """[(kind, [Tok])] per file."""
    tops = toplevel(cfg, st)
    files = [[] for _ in range(nfiles)]
    for i, (k, ts) in enumerate(tops): files[r.randrange(nfiles) if nfiles > 1 else 0].append((k, [Tok(x) for x in ts]))
    return files

def emit(toks, mode, r, fname):
    """Text of one file; fills in the places.  mode: "lines" (a token per line) or "random"."""
    out = bytearray(); line = 1; col = 0; prev = ""
    def put(b):
        nonlocal line, col
        for c in b:
            if c == 10: line += 1; col = 0
            else: col += 1
        out.extend(b)
    loose = r.random() if mode == "random" else 0
    for n, t in enumerate(toks):
        b = t.s.encode()
        if mode == "lines":
            if n: put(b"\n")
        else:
            need = prev and (prev[-1:].isalnum() or prev[-1:] == ".") and (t.s[:1].isalnum() or t.s[:1] in "-.") or t.s[:1] == "-" or prev[-1:] == "-"
            k = r.random()
            if k < .15 + loose * .4: ws = r.choice([b"\n", b"\n\n", b" \n ", b"\r\n", b"\n\t", b"\r\n\r\n  "])
            elif k < .22 + loose * .4: ws = r.choice([b" # note \"x\n", b"\n#\n", b"# ; } {\n\n", b"#\xc3\xa9\xc3\xa9\n", b"##\r\n", b"\n# a\n# b\n "])
            elif k < .8 or need: ws = r.choice([b" ", b" ", b"\t", b"   "])
            else: ws = b""
            put(ws)
        t.file = fname; t.n = n
        t.c0 = col + 1
        put(b)
        t.line = line; t.c1 = col
        if b"\n" in b: t.c0 = 0
        prev = t.s
    if mode == "lines" or r.random() < .5: put(b"\n")
    return bytes(out), line

def near(t, line, col, slack=1):
    """Is this the place of the token?  The end of the line after it counts as column zero."""
    return line == t.line and (col == 0 or t.c0 - slack <= col <= t.c1 + slack)

def inside(ts, fname, line, col, slack=1):
    return any(t.file == fname and near(t, line, col, slack) for t in ts)

# ------------------------------------------------------------ objects of a token list
def stmts(ts):
    """Statements of a body: lists of tokens, those of blocks with their braces."""
    out = []; cur = []; d = 0
    for t in ts:
        cur.append(t)
        if t.s == "{": d += 1
        elif t.s == "}": d -= 1
        elif t.s == ";" and d == 0: out.append(cur); cur = []
    assert not cur
    return out

def body(ts):
    i = next(i for i, t in enumerate(ts) if t.s == "{")
    return ts[:i], ts[i + 1:-2]

def splitcomma(ts):
    out = [[]]
    for t in ts:
        if t.s == ",": out.append([])
        else: out[-1].append(t)
    return out

def labelpos(ts, key, add):
    i = 0
    while i < len(ts):
        if ts[i].w == "jslabel":
            j = i + 1; lang = "_default"
            if ts[j].s == ".": lang = ts[j + 1].w; j += 2
            add(key + ("label", lang), ts[i:j + 1]); i = j + 1
        elif ts[i].w == "comment": i += 2
        else: i += 1

def objects(kind, ts):
    """{key: tokens} of the objects of one top-level statement, whose place must be among these tokens."""
    o = {}
    def add(k, w): o[k] = w
    k, _, top = kind.partition(" ")
    if k == "roles":
        def roles(ss):
            for st in ss:
                add(("role", st[1].w), st[:2])
                i = next((i for i, t in enumerate(st) if t.s == "{"), None)
                if i is not None: roles(stmts(st[i + 1:-2]))
        roles(stmts(body(ts)[1]))
        return o
    hd, bd = body(ts)
    add((k, top), hd[:2])
    cnt = {}
    for st in stmts(bd):
        w = st[0].w
        if k in ("enum", "bits"):
            if w == "item":
                add((k, top, "item", st[1].w), st[:2]); labelpos(st[2:], (k, top, "item", st[1].w), add)
            elif w in ("isnull", "isunset"): labelpos(st[1:], (k, top, w), add)
            continue
        n = cnt.get(w, 0)
        cnt[w] = n + 1
        S = ("struct", top)
        if w == "field": add(S + ("field", st[1].w), st[:2])
        elif w == "insert": add(S + ("insert",), st[:2])
        elif w == "unique": add(S + ("unique", n), st[:2])
        elif w in QTYPES:
            q = S + ("query", sum(cnt.get(x, 0) for x in QTYPES) - 1)
            i = next((i for i, t in enumerate(st) if t.s == ":"), len(st) - 1)
            add(q, st[:2])
            name = None
            if i > 1:
                for m, x in enumerate(splitcomma(st[1:i])): add(q + ("term", m), x)
            p = st[i + 1:]; j = 0
            while j < len(p):
                x = p[j].w
                if x == "name": j += 2
                elif x == "comment": j += 2
                elif x == "limit":
                    j += 2
                    if p[j].s == ",": j += 2
                elif x in ("grouprow", "minrow", "maxrow", "distinct"):
                    e = j + 2
                    if p[j + 1].s != ".":
                        while p[e].s == ".": e += 2
                    add(q + ({"grouprow": "group", "distinct": "dst"}.get(x, "aggr"),), p[j:e]); j = e
                elif x == "order":
                    j += 1; m = 0
                    while True:
                        e = j + 1
                        while p[e].s == ".": e += 2
                        if p[e].w in ("asc", "desc"): e += 1
                        add(q + ("ord", m), p[j:e]); m += 1; j = e
                        if p[j].s != ",": break
                        j += 1
                else: break
        elif w in ("update", "delete"):
            u = S + (w, n)
            add(u, st[:2])
            x = st[1:-1]; parts = [[]]
            for t in x:
                if t.s == ":" : parts.append([])
                else: parts[-1].append(t)
            if w == "delete": parts = [[]] + parts
            if parts[0]:
                for m, y in enumerate(splitcomma(parts[0])): add(u + ("mod", m), y)
            if len(parts) > 1 and parts[1]:
                for m, y in enumerate(splitcomma(parts[1])): add(u + ("con", m), y)
    return o
