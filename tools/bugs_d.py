# Planted changes for the generated Rust (C25), and more for the tools (C01-C11).
import os, glob
BUGS = []
def bug(id, property, edits, needs, breaks, demo, files=None):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, files=files or {}))
RS = {os.path.basename(f): open(f).read() for f in glob.glob("/verif/lib/rshim/*.rs") if not f.endswith("drv.rs")}
# builds stand-ins of the crates, then the module of $t/a.ort with main.rs beside it
RUN = r"""
for c in "$RUSTUP_HOME" "$HOME/.rustup" /root/.rustup /usr/local/rustup; do
	for x in "$c"/toolchains/stable*/bin/rustc; do [ -x "$x" ] && { rustc=$x; break 2; }; done
done
[ -n "$rustc" ] || rustc=$(command -v rustc) || exit 2
for c in libsqlite3_sys rusqlite bcrypt base64 num_traits num_derive; do
	ty=rlib; [ $c = num_derive ] && ty=proc-macro
	"$rustc" --edition 2018 -Awarnings --crate-type $ty -L "$t" --out-dir "$t" $([ $c = rusqlite ] && echo --extern libsqlite3_sys="$t/liblibsqlite3_sys.rlib") "$here/$c.rs" || exit 2
done
./ort-sql "$t/a.ort" >"$t/a.sql" || exit 1
{ ./ort-rust "$t/a.ort" || exit 1; cat "$t/main.rs"; } >"$t/prog.rs"
sed -i "s#@SQL@#$t/a.sql#" "$t/prog.rs"
x=; for c in libsqlite3_sys rusqlite bcrypt base64 num_traits; do x="$x --extern $c=$t/lib$c.rlib"; done
"$rustc" --edition 2018 -Awarnings -L "$t" $x --extern num_derive="$t/libnum_derive.so" -o "$t/prog" "$t/prog.rs" || exit 1
"$t/prog"
"""
SCHEMA = 'rusqlite::shim_exec(&std::fs::read_to_string("@SQL@").unwrap()).unwrap(); let db = ort::Ortdb::new(":memory:"); let mut c = db.connect().unwrap();'

bug("c25-pos-streq", "C25", [("lang-rust.c", """		    sent->op == OPTYPE_STREQ ||
		    sent->op == OPTYPE_STRNEQ) {
			pos++;
			continue;
		}
""", """		    sent->op == OPTYPE_STREQ ||
		    sent->op == OPTYPE_STRNEQ) {
			pos += sent->field->type != FTYPE_PASSWORD;
			continue;
		}
""")], "a query with a literal password term (streq) before one that verifies a password", "the password of the wrong parameter is verified",
"""
cat >"$t/a.ort" <<'F'
struct a { field id int rowid; field p password; field q password; insert; search p strneq, q: name pq limit 1; };
F
cat >"$t/main.rs" <<'F'
fn main() {
    """ + SCHEMA + """
    let _ = &mut c;
    let p = "one".to_string(); let q = "two".to_string(); let z = "zero".to_string();
    assert!(c.db_a_insert(&p, &q).unwrap() > 0);
    assert!(c.db_a_get_pq(&z, &q).unwrap().is_some());
    assert!(c.db_a_get_pq(&z, &p).unwrap().is_none());
}
F
""" + RUN, RS)

bug("c25-reffind-nested", "C25", [("lang-rust.c", """		if (!(fd->ref->target->parent->flags &
		      STRCT_HAS_NULLREFS))
			continue;
""", """		if ((fd->ref->source->flags & FIELD_NULL) ||
		    !(fd->ref->target->parent->flags &
		      STRCT_HAS_NULLREFS))
			continue;
""")], "a nullable reference to a structure which has a nullable reference itself, both set", "the reference beneath is not filled in",
"""
cat >"$t/a.ort" <<'F'
struct k { field id int rowid; insert; };
struct b { field id int rowid; field up: k.id int null; field u struct up; insert; };
struct a { field id int rowid; field up: b.id int null; field u struct up; insert; search id: name get; };
F
cat >"$t/main.rs" <<'F'
fn main() {
    """ + SCHEMA + """
    let _ = &mut c;
    let x = c.db_k_insert().unwrap(); let y = c.db_b_insert(Some(x)).unwrap(); let z = c.db_a_insert(Some(y)).unwrap();
    let o = c.db_a_get_get(z).unwrap().unwrap();
    let u = o.data.u.as_ref().unwrap();
    assert_eq!(u.id, y);
    assert_eq!(u.u.as_ref().unwrap().id, x);
}
F
""" + RUN, RS)

bug("c25-hash-null", "C25", [("lang-rust.c", """				return 0;
		}
		hash++;
		pos++;
	}

	if (fprintf(f,
	    "%12slet mut stmt = self.conn.prepare(&sql)?;\\n"
	    "%12smatch stmt.execute(params![\\n", "", "") < 0)
		return 0;
""", """				return 0;
		}
		if (TAILQ_NEXT(ref, entries) != NULL)
			hash++;
		pos++;
	}

	if (fprintf(f,
	    "%12slet mut stmt = self.conn.prepare(&sql)?;\\n"
	    "%12smatch stmt.execute(params![\\n", "", "") < 0)
		return 0;
"""), ("lang-rust.c", """			if (fprintf(f, "%16shash%zu,\\n", "", hash) < 0)
				return 0;
			hash++;
""", """			if (fprintf(f, "%16shash%zu,\\n", "", hash) < 0)
				return 0;
			hash += !(ref->field->flags & FIELD_NULL);
""")], "an update of two nullable passwords at once", "both passwords are set to the hash of the first",
"""
cat >"$t/a.ort" <<'F'
struct a { field id int rowid; field p password null; field q password null; insert; update p, q: id: name pq; search id, q: name get; };
F
cat >"$t/main.rs" <<'F'
fn main() {
    """ + SCHEMA + """
    let _ = &mut c;
    let (p, q) = ("one".to_string(), "two".to_string());
    let x = c.db_a_insert(None, None).unwrap();
    assert!(c.db_a_update_pq(Some(&p), Some(&q), x).unwrap());
    assert!(c.db_a_get_get(x, Some(&q)).unwrap().is_some());
    assert!(c.db_a_get_get(x, Some(&p)).unwrap().is_none());
}
F
""" + RUN, RS)
