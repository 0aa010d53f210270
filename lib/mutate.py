"""Mutation of ort(5) text: token-level and byte-level."""
import re
TOK = re.compile(rb'"(?:[^"\\]|\\.)*"|-?[0-9]+(?:\.[0-9]*)?|[A-Za-z][A-Za-z0-9]*|#[^\n]*\n?|[{};,.:]|\s+|.', re.S)
KW = [w.encode() for w in ("struct enum bits bitfield roles role field item rowid unique null noexport default limit comment actdel actup insert update delete search list iterate count all none default "
  "name order asc desc distinct grouprow minrow maxrow jslabel isnull isunset int integer text txt real double bit blob date epoch email password passwd ge gt le lt eq neq like and or streq strneq isnull notnull inc dec set strset concat cascade restrict nullify offset").split()]
ODD = [b"0", b"-1", b"1", b"64", b"63", b"9223372036854775807", b"-9223372036854775807", b"-9223372036854775808", b"9223372036854775808", b"99999999999999999999", b"1.5", b"-0.0", b"1.", b"1.7976931348623157", b"2147483647", b"-2147483648", b"0000000000000000000000001", b"1" * 400, b"1" * 330 + b".0", b'""', b'"x"', b'"\\""', b'"\\', b'"%s%n"', b'"\xff\xfe"', b'"\x00"', b"\x00", b"-", b"--1", b"- 1", b"{", b"}", b";", b",", b".", b":", b"@", b"\xc3\xa9", b"#", b"2000-1-1", b"2000-13-40", b"9999999-1-1", b"-2000-01-01", b"q" * 3000]

def toks(b): return TOK.findall(b)

def mutate(r, b, other):
    t = toks(b)
    for _ in range(r.choice([1, 1, 1, 2, 2, 3, 5])):
        if not t: t = [b""]
        k = r.random(); i = r.randrange(len(t))
        if k < .14: del t[i]
        elif k < .24: t.insert(i, t[i])
        elif k < .34:
            j = r.randrange(len(t)); t[i], t[j] = t[j], t[i]
        elif k < .46: t[i] = r.choice(ODD)
        elif k < .58: t[i] = r.choice(KW)
        elif k < .68:
            # another token of the same text in place
            words = [x for x in t if x[:1].isalpha()]
            idx = [n for n, x in enumerate(t) if x[:1].isalpha()]
            if idx: t[r.choice(idx)] = r.choice(words)
        elif k < .76:
            o = toks(other)
            if o:
                a = r.randrange(len(o)); n = r.randint(1, 12); t[i:i] = o[a:a + n]
        elif k < .82: t = t[:i]
        elif k < .85:
            # repeat a few words, as a clause given twice
            w = [n for n, x in enumerate(t) if x[:1].isalpha()]
            if w:
                a = r.choice(w); n = 0; j = a
                k2 = r.randint(1, 4)
                while j < len(t) and n < k2:
                    n += not t[j].isspace(); j += 1
                t[j:j] = [b" "] + t[a:j] + [b" "]
        elif k < .88:
            j = min(len(t), i + r.randint(1, 15)); t[i:i] = t[i:j] * r.randint(1, 3)
        elif k < .93:
            j = min(len(t), i + r.randint(1, 10)); del t[i:j]
        elif k < .97:
            x = bytearray(b"".join(t))
            if x:
                p = r.randrange(len(x)); x[p] = r.randrange(256)
            t = toks(bytes(x))
        else:
            x = b"".join(t); t = toks(x[:r.randint(0, len(x))])
    return b"".join(t)

XTOK = re.compile(rb'<[^>]*>|[^<]+|.', re.S)
XODD = [b"<target>", b"</target>", b"<source>x</source>", b"<trans-unit id='1'>", b"</file>", b"<file target-language=\"xx\">", b"<file>", b"&lt;", b"&#60;", b"&bogus;", b"<![CDATA[x]]>", b"<!-- x -->", b"<g id='1'>y</g>", b"\"", b"\\", b"\x00", b"<target/>", b"<source/>", b"<x/>", b"</xliff>", b"<?xml version='1.0'?>", b"\xff"]
def xmutate(r, b):
    t = XTOK.findall(b)
    for _ in range(r.choice([1, 1, 2, 3])):
        if not t: t = [b""]
        k = r.random(); i = r.randrange(len(t))
        if k < .2: del t[i]
        elif k < .4: t.insert(i, t[i])
        elif k < .5:
            j = r.randrange(len(t)); t[i], t[j] = t[j], t[i]
        elif k < .75: t[i] = r.choice(XODD)
        elif k < .9: t.insert(i, r.choice(XODD))
        else:
            x = b"".join(t); t = XTOK.findall(x[:r.randint(0, len(x))])
    return b"".join(t)
