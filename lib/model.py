"""Reference semantics of a configuration model (the dicts of ortgen)."""
import calendar, datetime
import ortgen
from ortgen import sdict, fdict, rawval, enumvals, allroles

def edict(cfg): return {e["name"]: e for e in cfg["enums"]}
def bdict(cfg): return {b["name"]: b for b in cfg["bits"]}

def oproles(cfg, s, kind, name):
    """Set of roles assigned to an operation; None if nothing is assigned at all."""
    out = set(); found = False
    for rr in s["roles"]:
        for t, n in rr["ops"]:
            if t == "all" or (t == kind and (t == "insert" or (n == name and name is not None))):
                out |= set(rr["roles"]); found = True
    return out

def noexport_roles(cfg, s, fname):
    out = set()
    for rr in s["roles"]:
        for t, n in rr["ops"]:
            if t == "noexport" and (n is None or n == fname): out |= set(rr["roles"])
    return out

def parents(cfg):
    """role -> parent; top-level roles have the parent 'all'."""
    d = {"all": None, "default": None, "none": None}
    def w(rs, p):
        for x in rs:
            d[x["name"]] = p; w(x["subs"], x["name"])
    if cfg["roles"] is not None: w(cfg["roles"], "all")
    return d

def isa(par, role, anc):
    while role is not None:
        if role == anc: return True
        role = par.get(role)
    return False

def walk(cfg, s, path):
    """Fields along a dotted path."""
    S = sdict(cfg); out = []
    for x in path:
        F = fdict(s); f = F[x]; out.append((s, f))
        if f["type"] == "struct": s = S[F[f["src"]]["ref"][0]]
    return out

def target(cfg, s, f):
    """Structure embedded by a struct field."""
    return sdict(cfg)[fdict(s)[f["src"]]["ref"][0]]

def epoch(datestr):
    """Seconds for an ISO date with plain Gregorian rules."""
    neg = datestr.startswith("-")
    y, m, d = (int(x) for x in datestr.lstrip("-").split("-"))
    if neg: y = -y
    return calendar.timegm((y, m, d, 0, 0, 0)) if 1 <= y <= 9999 else days(y, m, d) * 86400

def days(y, m, d):
    y -= m <= 2
    era = y // 400; yoe = y - era * 400
    doy = (153 * (m + (-3 if m > 2 else 9)) + 2) // 5 + d - 1
    return era * 146097 + yoe * 365 + yoe // 4 - yoe // 100 + doy - 719468

def defval(cfg, f):
    """The default as a Python value (enum: its number)."""
    if f["default"] is None: return None
    k, v = f["default"]
    if k == "int": return int(v)
    if k == "real": return float(v)
    if k == "date": return epoch(v)
    if k == "str": return rawval(v)
    if k == "ident": return enumvals(edict(cfg)[f["enum"]])[v]

def limval(f, v):
    return float(v) if f["type"] == "real" else int(v)

def updmods(s, u):
    """Effective modifiers of an update, as (field, modifier)."""
    if not u["mods"]:
        return [(f["name"], "set") for f in s["fields"] if f["type"] != "struct" and not f["rowid"]]
    return [(n, m or "set") for n, m in u["mods"]]
