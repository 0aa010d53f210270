"""Generated Rust modules in operation (ort-rust(1)), with the interface of crun's programs."""
import os, hashlib, glob, fcntl, subprocess, shutil
import h, ortgen, model, cgen, crun, sqlref, ortbuild
from ortgen import sdict, fdict
from h import Bad, Skip

D = os.path.join(os.path.dirname(os.path.abspath(__file__)), "rshim")
CRATES = ["libsqlite3_sys", "rusqlite", "bcrypt", "base64", "num_traits", "num_derive", "drv"]
DEPS = {"rusqlite": ["libsqlite3_sys"], "drv": ["rusqlite"]}
def rustc():
    """The compiler itself, not the launcher that looks for it."""
    homes = [os.environ.get("RUSTUP_HOME"), os.path.join(os.environ.get("HOME") or "/root", ".rustup"), "/root/.rustup", "/usr/local/rustup"]
    for r in homes:
        l = sorted(glob.glob(os.path.join(r, "toolchains/stable*/bin/rustc")) if r else []) or sorted(glob.glob(os.path.join(r, "toolchains/[0-9]*/bin/rustc")) if r else [])
        if l: return l[0]
    return shutil.which("rustc")
RUSTC = rustc()
def rlib(d, c): return os.path.join(d, "lib%s.%s" % (c, "so" if c == "num_derive" else "rlib"))
def shims():
    """The stand-ins of the crates, compiled once."""
    hs = hashlib.sha256()
    for f in sorted(glob.glob(D + "/*.rs")): hs.update(open(f, "rb").read())
    d = os.path.join(ortbuild.WORK, "rshim-" + hs.hexdigest()[:12])
    os.makedirs(ortbuild.WORK, exist_ok=True)
    with open(os.path.join(ortbuild.WORK, "lock-rshim"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(d):
            t = d + ".tmp"; shutil.rmtree(t, ignore_errors=True); os.makedirs(t)
            for c in CRATES:
                subprocess.run([RUSTC, "--edition", "2018", "-Awarnings", "--crate-type", "proc-macro" if c == "num_derive" else "rlib", "-O", "-L", t, "--out-dir", t]
                               + [y for x in DEPS.get(c, []) for y in ("--extern", "%s=%s" % (x, rlib(t, x)))] + [os.path.join(D, c + ".rs")], check=True)
            os.rename(t, d)
    return d

def title(n): return n[0].upper() + n[1:]
def rstr(s): return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n") + '"'
TYPES = {"bit": "i64", "bits": "i64", "date": "i64", "epoch": "i64", "int": "i64", "real": "f64", "blob": "Vec<u8>", "text": "String", "email": "String", "password": "String"}

def driver(cfg, OPS, schema, cost):
    o = ["\n#[allow(unused_imports)] use ort::{data, objs};\nuse std::cell::RefCell;\nthread_local!(static ROWS: RefCell<Vec<String>> = RefCell::new(Vec::new()));\n"]
    roles = cfg["roles"] is not None
    E = model.edict(cfg)
    for e in cfg["enums"]:
        n = title(e["name"]); V = ortgen.enumvals(e)
        o.append("fn to_%s(t: &str) -> data::%s { match drv::toi(t) { %s _ => std::process::exit(77) } }\n" % (e["name"], n, "".join("%d => data::%s::%s, " % (v, n, title(k)) for k, v in V.items())))
        o.append("fn of_%s(e: &data::%s) -> String { drv::outi(match e { %s }) }\n" % (e["name"], n, "".join("data::%s::%s => %d, " % (n, title(k), v) for k, v in V.items())))
    for s in cfg["structs"]:
        n = title(s["name"]); F = fdict(s)
        o.append("fn dump_%s(p: &data::%s) -> String {\n\tlet mut o = String::from(\"{\");\n" % (s["name"], n))
        for i, f in enumerate(s["fields"]):
            fn = f["name"]; t = f["type"]; null = f["null"]
            if t == "struct":
                t = F[f["src"]]["ref"][0]; null = F[f["src"]]["null"]; fun = "dump_" + t; ty = "data::" + title(t)
            elif t == "enum": fun = "of_" + f["enum"]; ty = "data::" + title(f["enum"])
            else:
                ty = TYPES[t]; fun = {"i64": "drv::outi", "f64": "drv::outr", "Vec<u8>": "drv::outb", "String": "drv::outs"}[ty]
            am = "*" if ty in ("i64", "f64") else ""
            o.append("\to += \"%s\\\"%s\\\":\";\n" % ("," if i else "", fn))
            # the documented type, checked by the compiler
            if null: o.append("\t{ let v: &Option<%s> = &p.%s; o += &match v { Some(x) => %s(%sx), None => String::from(\"null\") }; }\n" % (ty, fn, fun, am))
            else: o.append("\t{ let v: &%s = &p.%s; o += &%s(%sv); }\n" % (ty, fn, fun, am))
        o.append("\to + \"}\"\n}\n")
        o.append("fn it_%s(r: objs::%s) { let d: &data::%s = &r.data; let s = dump_%s(d); ROWS.with(|l| l.borrow_mut().push(s)); }\n" % (s["name"], n, n, s["name"]))
        o.append("fn ex_%s(r: objs::%s) { let s: String = r.export(); ROWS.with(|l| l.borrow_mut().push(s)); }\n" % (s["name"], n))
    o.append("fn dumpdb() -> String {\n\tlet mut o = String::from(\"{\");\n")
    for i, s in enumerate(cfg["structs"]):
        o.append("\to += %s; o += &drv::dumptable(%s, %s);\n" % (rstr("," if i else ""), rstr(s["name"]), rstr("SELECT %s FROM %s ORDER BY _rowid_" % (", ".join(["_rowid_"] + [f["name"] for f in sqlref.cols(s)]), s["name"]))))
    o.append("\to + \"}\"\n}\n")
    for op in OPS.values():
        o.append("fn run_%s(ctx: &mut ort::Ortctx, t: &[&str], js: bool) {\n" % op.name); call = []
        for i, (ps, f, ptr, _) in enumerate(op.params):
            k = i + 1
            if f["type"] == "enum": fun = "to_" + f["enum"]; ty = "data::" + title(f["enum"])
            else:
                ty = TYPES[f["type"]]; fun = {"i64": "drv::toi", "f64": "drv::tor", "Vec<u8>": "drv::tob", "String": "drv::tos"}[ty]
            byref = ty in ("String", "Vec<u8>")
            if f["null"]: o.append("\tlet a%d: Option<%s> = drv::opt(t[%d], %s);\n" % (k, ty, k, fun)); call.append("a%d%s" % (k, ".as_ref()" if byref else ""))
            else: o.append("\tlet a%d: %s = %s(t[%d]);\n" % (k, ty, fun, k)); call.append("%sa%d" % ("&" if byref else "", k))
        a = ", ".join(call)
        if op.kind == "insert": o.append("\tlet r: rusqlite::Result<i64> = ctx.%s(%s);\n\tmatch r { Ok(i) => drv::say(&format!(\"\\\"I{}\\\"\", i)), Err(e) => drv::die(\"insert\", e) }\n" % (op.name, a))
        elif op.kind == "update": o.append("\tlet r: rusqlite::Result<bool> = ctx.%s(%s);\n\tmatch r { Ok(i) => drv::say(&format!(\"\\\"U{}\\\"\", i as i32)), Err(e) => drv::die(\"update\", e) }\n" % (op.name, a))
        elif op.kind == "delete": o.append("\tlet r: rusqlite::Result<()> = ctx.%s(%s);\n\tmatch r { Ok(_) => drv::say(\"\\\"D\\\"\"), Err(e) => if drv::violated(&e) { std::process::exit(1) } else { drv::die(\"delete\", e) } }\n" % (op.name, a))
        elif op.kind == "count": o.append("\tlet r: rusqlite::Result<i64> = ctx.%s(%s);\n\tmatch r { Ok(i) => drv::say(&format!(\"\\\"C{}\\\"\", i)), Err(e) => drv::die(\"count\", e) }\n" % (op.name, a))
        else:
            n = op.ret["name"]; T = "objs::" + title(n)
            o.append("\tROWS.with(|l| l.borrow_mut().clear());\n\tlet f: fn(%s) = if js { ex_%s } else { it_%s };\n" % (T, n, n))
            if op.kind == "search": o.append("\tlet r: rusqlite::Result<Option<%s>> = ctx.%s(%s);\n\tmatch r { Ok(Some(x)) => f(x), Ok(None) => (), Err(e) => drv::die(\"search\", e) }\n" % (T, op.name, a))
            elif op.kind == "list": o.append("\tlet r: rusqlite::Result<Vec<%s>> = ctx.%s(%s);\n\tmatch r { Ok(v) => for x in v { f(x) }, Err(e) => drv::die(\"list\", e) }\n" % (T, op.name, a))
            else: o.append("\tlet r: rusqlite::Result<()> = ctx.%s(%s);\n\tif let Err(e) = r { drv::die(\"iterate\", e) }\n" % (op.name, ", ".join(["f"] + call)))
            o.append("\tlet l = ROWS.with(|l| l.borrow().join(\",\"));\n\tdrv::say(&format!(\"[{}]\", l));\n")
        o.append("}\n")
    if roles:
        rn = ["none", "default"] + ortgen.allroles(cfg)
        o.append("fn role(ctx: &mut ort::Ortctx, n: &str) {\n\tctx.db_role(match n { %s _ => std::process::exit(77) });\n\tdrv::say(match ctx.db_role_current() { %s });\n}\n"
                 % ("".join("%s => ort::Ortrole::%s, " % (rstr(x), title(x)) for x in rn), "".join("ort::Ortrole::%s => %s, " % (title(x), rstr('"%s"' % x)) for x in rn)))
    o.append("fn main() {\n\tdrv::hook();\n\tif let Err(e) = rusqlite::shim_exec(%s) { eprintln!(\"driver: {}\", e); std::process::exit(79) }\n" % rstr(schema))
    # explicit discriminators: values of enumeration items; of bits, the index (counted from zero or one)
    for e in cfg["enums"]:
        for k, v in ortgen.enumvals(e).items(): o.append("\tif data::%s::%s as i64 != drv::toi(\"i%d\") { drv::fail(\"discriminator of %s.%s\") }\n" % (title(e["name"]), title(k), v, e["name"], k))
    for b in cfg["bits"]:
        o.append("\t{ let d: Vec<i64> = vec![%s]; if d.iter().any(|x| *x != d[0]) || d[0] < 0 || d[0] > 1 { drv::fail(\"discriminators of %s\") } }\n" % (", ".join("data::%s::%s as i64 - %d" % (title(b["name"]), title(k["name"]), k["value"]) for k in b["items"]), b["name"]))
    o.append("\tlet db: ort::Ortdb = %s;\n" % ("ort::Ortdb::new(\":memory:\")" if cost is None else "ort::Ortdb::new_with_args(\":memory:\", ort::Ortargs { bcrypt_cost: %d })" % cost))
    o.append("\tlet mut ctx: ort::Ortctx = db.connect().unwrap();\n\tlet mut line = String::new();\n\tloop {\n\t\tline.clear();\n\t\tif std::io::stdin().read_line(&mut line).unwrap() == 0 { break; }\n\t\tlet t: Vec<&str> = line.split_whitespace().collect();\n\t\tif t.is_empty() { continue; }\n"
             "\t\tlet (js, l) = if let Some(x) = t[0].strip_prefix('+') { (true, x) } else { (false, t[0]) };\n\t\tmatch l {\n\t\t\t\"dump\" => drv::say(&dumpdb()),\n"
             "\t\t\t\"sql\" => { if let Err(e) = rusqlite::shim_exec(&drv::tos(t[1])) { eprintln!(\"driver: {}\", e); std::process::exit(74) } drv::say(\"\\\"ok\\\"\") }\n"
             "\t\t\t\"begin\" => { rusqlite::shim_exec(\"BEGIN\").unwrap(); drv::say(&format!(\"\\\"B{}\\\"\", drv::toi(t[2]))) }\n"
             "\t\t\t\"commit\" => { rusqlite::shim_exec(\"COMMIT\").unwrap(); drv::say(\"\\\"ok\\\"\") }\n"
             "\t\t\t\"rollback\" => { rusqlite::shim_exec(\"ROLLBACK\").unwrap(); drv::say(\"\\\"ok\\\"\") }\n")
    if roles: o.append("\t\t\t\"role\" => role(&mut ctx, t[1]),\n")
    for op in OPS.values(): o.append("\t\t\t\"%s\" => run_%s(&mut ctx, &t, js),\n" % (op.name, op.name))
    o.append("\t\t\t_ => { eprintln!(\"driver: {}?\", l); std::process::exit(75) }\n\t\t}\n\t\tlet c = bcrypt::COST.with(|c| c.get());\n\t\tif c != 0 && c != %d { drv::fail(\"password hashing rounds\") }\n\t}\n\teprintln!(\"driver: end 0\");\n}\n" % (cost or 12))
    return "".join(o)

def build(ctx, cfg, fpath, OPS, cost=None):
    schema = ctx.ok("ort-sql", fpath).text
    d = shims(); exe = os.path.join(ctx.scratch, "drv")
    src = ctx.ok("ort-rust", fpath).text + driver(cfg, OPS, schema, cost)
    ctx.write("main.rs", src)
    r = h.run([RUSTC, "--edition", "2018", "-Awarnings", "-Cdebuginfo=0", "-Copt-level=0", "-Ccodegen-units=1", "-L", d] + [y for c in CRATES for y in ("--extern", "%s=%s" % (c, rlib(d, c)))] + ["-o", exe, os.path.join(ctx.scratch, "main.rs")], cwd=ctx.scratch, timeout=120)
    if r.timeout: raise Bad("the Rust compiler does not end")
    if r.rc: raise Bad("the Rust module does not compile, or not with the documented interface", r.errtext[:4000])
    return exe, schema
