# Planted changes for the generated TypeScript and JavaScript and the constants (C20-C24).
BUGS = []
def bug(id, property, edits, needs, breaks, demo, files=None):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, files=files or {}))

# ---------------------------------------------------------------- C20
bug("c20-strset-null", "C20", [("lang-nodejs.c", """			if (ref->mod != MODTYPE_STRSET)
				break;
			/* FALLTHROUGH */
		default:
			if (fprintf(f, 
			    "\\t\\tparms.push(v%zu);\\n", pos++) < 0)
				return 0;
			continue;
		}

		if (ref->field->flags & FIELD_NULL) {""", """			if (ref->mod != MODTYPE_STRSET ||
			    (ref->field->flags & FIELD_NULL))
				break;
			/* FALLTHROUGH */
		default:
			if (fprintf(f, 
			    "\\t\\tparms.push(v%zu);\\n", pos++) < 0)
				return 0;
			continue;
		}

		if (ref->field->flags & FIELD_NULL) {""")],
 "an update that sets a nullable password literally (strset)", "the already hashed password is hashed again",
 r"""
cat >"$t/a.ort" <<'F'
struct a { field id int rowid; field p password null; update p strset: id: name setp; };
F
./ort-nodejs "$t/a.ort" >"$t/x.ts" || exit 1
awk '/db_a_update_setp/,/^\t}/' "$t/x.ts" >"$t/f"
grep -q 'parms.push' "$t/f" || exit 1
! grep -q hashSync "$t/f"
""")

bug("c20-fill-order", "C20", [("lang-nodejs.c", """	TAILQ_FOREACH(fd, &p->fq, entries)
		if (fd->type == FTYPE_STRUCT &&
		    !(fd->ref->source->flags & FIELD_NULL))
			if (fprintf(f, "\\t\\tobj.%s = "
			    "this.db_%s_fill(data);\\n", fd->name, 
			    fd->ref->target->parent->name) < 0)
				return 0;

	return fputs("\\t\\treturn obj;\\n\\t}\\n", f) != EOF;""", """	TAILQ_FOREACH_REVERSE(fd, &p->fq, fieldq, entries)
		if (fd->type == FTYPE_STRUCT &&
		    !(fd->ref->source->flags & FIELD_NULL))
			if (fprintf(f, "\\t\\tobj.%s = "
			    "this.db_%s_fill(data);\\n", fd->name, 
			    fd->ref->target->parent->name) < 0)
				return 0;

	return fputs("\\t\\treturn obj;\\n\\t}\\n", f) != EOF;""")],
 "a structure with two or more nested structures", "nested structures are filled from one another's columns",
 r"""
cat >"$t/a.ort" <<'F'
struct b { field id int rowid; field s text; };
struct a { field id int rowid; field x:b.id; field y:b.id; field xo struct x; field yo struct y; list: name l; };
F
./ort-nodejs "$t/a.ort" >"$t/x.ts" || exit 1
awk '/private db_a_fill/,/^\t}/' "$t/x.ts" | grep -o 'obj\.[xy]o = ' | tr -d '\n' >"$t/f"
[ "$(cat "$t/f")" = "obj.xo = obj.yo = " ]
""")

bug("c20-bits-constraint", "C20", [("lang-nodejs.c", """		if (OPTYPE_ISUNARY(ref->op))
			continue;
		switch (ref->field->type) {
		case FTYPE_BIT:
		case FTYPE_BITFIELD:
			if (ref->field->flags & FIELD_NULL) {""", """		if (OPTYPE_ISUNARY(ref->op))
			continue;
		switch (ref->field->type) {
		case FTYPE_BIT:
			if (ref->field->flags & FIELD_NULL) {""")],
 "an update or delete constrained by a bit-field given with its 64th bit set, as its constant is", "the operation throws for a value that is in range",
 r"""
cat >"$t/a.ort" <<'F'
bitfield bb { item one 0; item top 63; };
struct a { field id int rowid; field b bits bb; delete b: name d; };
F
./ort-nodejs "$t/a.ort" >"$t/x.ts" || exit 1
awk '/db_a_delete_d/,/^\t}/' "$t/x.ts" | grep -q 'asIntN(64, v1)'
""")

bug("c20-iterate-dst", "C20", [("lang-nodejs.c", """		    "\\t\\tfor (const cols of stmt.iterate(parms)) {\\n"
		    "\\t\\t\\tconst obj: ortns.%sData =\\n"
		    "\\t\\t\\t\\tthis.db_%s_fill"
		    "({row: <any>cols, pos: 0});\\n",
		    rs->name, rs->name) < 0)
			return 0;
		if (rs->flags & STRCT_HAS_NULLREFS)""", """		    "\\t\\tfor (const cols of stmt.iterate(parms)) {\\n"
		    "\\t\\t\\tconst obj: ortns.%sData =\\n"
		    "\\t\\t\\t\\tthis.db_%s_fill"
		    "({row: <any>cols, pos: 0});\\n",
		    rs->name, rs->name) < 0)
			return 0;
		if (s->dst == NULL && (rs->flags & STRCT_HAS_NULLREFS))""")],
 "an iterator over distinct results of a structure with a nullable nested structure", "the nested structure is null though it is referenced",
 r"""
cat >"$t/a.ort" <<'F'
struct b { field id int rowid; field s text; };
struct a { field id int rowid; field x:b.id int null; field xo struct x; iterate: name it distinct .; };
F
./ort-nodejs "$t/a.ort" >"$t/x.ts" || exit 1
awk '/db_a_iterate_it/,/^\t}/' "$t/x.ts" | grep -q reffind
""")

bug("c20-insert-nullpass", "C20", [("lang-nodejs.c", """		/* Handle password. */

		if (fd->flags & FIELD_NULL) {
			if (fprintf(f,
			    "\\t\\tif (v%zu === null)\\n\"""", """		/* Handle password. */

		if (fd->flags & FIELD_NULL) {
			if (fprintf(f,
			    "\\t\\tif (!v%zu)\\n\"""")],
 "inserting an empty (not null) password into a nullable field", "null is stored instead of the hash of the empty password",
 r"""
cat >"$t/a.ort" <<'F'
struct a { field id int rowid; field p password null; insert; };
F
./ort-nodejs "$t/a.ort" >"$t/x.ts" || exit 1
awk '/db_a_insert/,/^\t}/' "$t/x.ts" >"$t/f"
e=$(sed -n 's/^\t\tif (\(.*\))$/\1/p' "$t/f" | head -1)
[ -n "$e" ] || exit 1
node -e "const v1 = ''; process.exit(($e) ? 1 : 0)"
""")

# ---------------------------------------------------------------- C21
bug("c21-leaf", "C21", [("lang-nodejs.c", """	TAILQ_FOREACH(rr, &r->subrq, entries)
		if (!gen_ortctx_dbrole_role(f, rr))
			return 0;

	return 1;""", """	TAILQ_FOREACH(rr, &r->subrq, entries)
		if (!TAILQ_EMPTY(&rr->subrq) &&
		    !gen_ortctx_dbrole_role(f, rr))
			return 0;

	return 1;""")],
 "a role nested in another and without roles of its own", "no transition is possible from the role",
 r"""
cat >"$t/a.ort" <<'F'
roles { role r { role s { role u; }; }; };
struct a { field id int rowid; insert; roles all { insert; }; };
F
./ort-nodejs "$t/a.ort" >"$t/x.ts" || exit 1
awk '/db_role\(newrole/,/^\t}/' "$t/x.ts" | grep -q "^		case 'u'"
""")

bug("c21-none-none", "C21", [("lang-nodejs.c", """	    "\\t\\tif (this.#role === newrole)\\n"
	    "\\t\\t\\treturn;\\n"
	    "\\t\\tif (this.#role === 'none')\\n"
	    "\\t\\t\\tprocess.abort();\\n\"""", """	    "\\t\\tif (this.#role === 'none')\\n"
	    "\\t\\t\\tprocess.abort();\\n"
	    "\\t\\tif (this.#role === newrole)\\n"
	    "\\t\\t\\treturn;\\n\"""")],
 "changing from none to none", "the program is aborted though the role is unchanged",
 r"""
cat >"$t/a.ort" <<'F'
roles { role r; };
struct a { field id int rowid; insert; roles all { insert; }; };
F
./ort-nodejs "$t/a.ort" >"$t/x.ts" || exit 1
awk '/db_role\(newrole/,/^\t}/' "$t/x.ts" | grep 'if (this.#role' | head -1 | grep -q newrole
""")

bug("c21-sub-roles", "C21", [("lang-nodejs.c", """	TAILQ_FOREACH(rr, &r->subrq, entries)
		if (!gen_role(f, rr, tabs))
			return 0;
	return 1;""", """	if ((rr = TAILQ_FIRST(&r->subrq)) != NULL)
		for ( ; rr != NULL && (r->parent == NULL ||
		     r->parent->parent == NULL ||
		     rr == TAILQ_FIRST(&r->subrq));
		     rr = TAILQ_NEXT(rr, entries))
			if (!gen_role(f, rr, tabs))
				return 0;
	return 1;""")],
 "two sibling roles at the third level of the hierarchy or deeper", "the second sibling is denied what its ancestor is allowed",
 r"""
cat >"$t/a.ort" <<'F'
roles { role r { role s { role u; role w; }; }; };
struct a { field id int rowid; insert; roles r { insert; }; };
F
./ort-nodejs "$t/a.ort" >"$t/x.ts" || exit 1
awk '/db_a_insert/,/^\t}/' "$t/x.ts" >"$t/f"
grep -q "case 'u'" "$t/f" && grep -q "case 'w'" "$t/f"
""")

# ---------------------------------------------------------------- C22
bug("c22-iterate-role", "C22", [("lang-nodejs.c", """		    "\\t\\t\\tcb(new ortns.%s(this.#role, obj));\\n\"""", """		    "\\t\\t\\tcb(new ortns.%s('default', obj));\\n\"""")],
 "exporting an object passed to an iterator when fields are not exported to the current role", "a field is exported to a role it must not be exported to",
 r"""
cat >"$t/a.ort" <<'F'
roles { role r; };
struct a { field id int rowid; field n int; iterate: name it; roles r { iterate it; noexport n; }; };
F
./ort-nodejs "$t/a.ort" >"$t/x.ts" || exit 1
awk '/db_a_iterate_it/,/^\t}/' "$t/x.ts" | grep -q 'new ortns.a(this.#role, obj)'
""")

bug("c22-nested-role", "C22", [("lang-nodejs.c", """				    "%s\\t\\t\\tnull : db_export_%s"
				    "(role, obj[\\'%s\\'])\\n",""", """				    "%s\\t\\t\\tnull : db_export_%s"
				    "(\\'default\\', obj[\\'%s\\'])\\n",""")],
 "exporting a nullable nested structure with a field not exported to the current role", "the field is exported",
 r"""
cat >"$t/a.ort" <<'F'
roles { role r; };
struct b { field id int rowid; field s text; roles r { noexport s; }; };
struct a { field id int rowid; field x:b.id int null; field xo struct x; list: name l; roles r { list l; }; };
F
./ort-nodejs "$t/a.ort" >"$t/x.ts" || exit 1
awk '/function db_export_a/,/^\t}/' "$t/x.ts" | grep -q "db_export_b(role, obj\['xo'\])"
""")

bug("c22-uint-max", "C22", [("lang-nodejs.c", """nv > maxUint)\\n\"""", """nv >= maxUint)\\n\"""")],
 "validating a bit-field with every bit set, given unsigned", "an acceptable value is rejected",
 r"""
cat >"$t/a.ort" <<'F'
bitfield bb { item one 0; };
struct a { field id int rowid; field b bits bb; };
F
./ort-nodejs -v "$t/a.ort" >"$t/x.ts" || exit 1
e=$(awk "/^\t\t'a-b': \(v\)/,/^\t\t}/" "$t/x.ts" | sed -n 's/^\t\t\tif (\(.*maxUint.*\))$/\1/p')
[ -n "$e" ] || exit 1
node -e "const nv = 18446744073709551615n, maxUint = nv, minInt = -9223372036854775808n; process.exit(($e) ? 1 : 0)"
""")

# ---------------------------------------------------------------- C23
LONG = r"""
T=$(command -v tsc || echo /opt/veriftools/node/node_modules/.bin/tsc)
cat >"$t/a.ort" <<'F'
bitfield bb { item one 0; };
struct a { field b bits bb; };
F
./ort-javascript -S . "$t/a.ort" >"$t/a.ts" || exit 1
echo '(globalThis as any).L = ort.Long;' >>"$t/a.ts"
(cd "$t" && $T --target es2020 --lib es2020,dom a.ts >/dev/null; [ -s a.js ]) || exit 1
"""
bug("c23-default-label", "C23", [("lang-javascript.c", """	TAILQ_FOREACH(l, q, entries)
		if (l->lang == 0) {
			def = l->label;
			break;
		}
""", """	TAILQ_FOREACH(l, q, entries) {
		def = l->label;
		if (l->lang == 0)
			break;
	}
""")],
 "an item with a label in some languages but no default one", "a label in another language is shown",
 r"""
cat >"$t/a.ort" <<'F'
enum e { item a 0 jslabel.fr "fra"; item b 1 jslabel "bdef" jslabel.en "ben"; };
struct s { field v enum e; };
F
./ort-javascript -S . "$t/a.ort" >"$t/a.ts" || exit 1
awk '/case e.a:/,/break/' "$t/a.ts" >"$t/f"
grep -q "fr: 'fra'" "$t/f" && grep -q "en: ''" "$t/f"
""")

bug("c23-null-struct", "C23", [("lang-javascript.c", """		(fd->flags & FIELD_NULL) ||
		(fd->type == FTYPE_STRUCT && 
		 (fd->ref->source->flags & FIELD_NULL)) ?
		"true" : "false");""", """		(fd->flags & FIELD_NULL) ||
		(fd->type == FTYPE_STRUCT && fd->rolemap == NULL &&
		 (fd->ref->source->flags & FIELD_NULL)) ?
		"true" : "false");""")],
 "a nullable nested structure that is not exported to some role, and is null", "elements for its presence are not shown or hidden, the null is written",
 r"""
cat >"$t/a.ort" <<'F'
roles { role r; };
struct b { field id int rowid; field s text; };
struct a { field id int rowid; field x:b.id int null; field xo struct x; list: name l; roles r { list l; noexport xo; }; };
F
./ort-javascript -S . "$t/a.ort" >"$t/a.ts" || exit 1
tr -d '\n\t ' <"$t/a.ts" | grep -q "'a','xo',custom,o.xo,inc,true,"
""")

bug("c23-shl", "C23", [("ortPrivate.ts", """			else if (v < 32)
				return new Long
					(this.low << v, """, """			else if (v <= 32)
				return new Long
					(this.low << v, """)],
 "testing or shifting to exactly bit 32", "the wrong bit is set",
 LONG + r"""
node -e "require('$t/a.js'); process.exit(L.ONE.shl(32).toNumber() === 4294967296 ? 0 : 1)"
""")

bug("c23-unset-label", "C23", [("lang-javascript.c", """		    "\\t\\t\\t} else if (vlong.isZero()) {\\n"
		    "\\t\\t\\t\\t_classadd(e, \\'ort-unset\\');\\n"
		    "\\t\\t\\t\\t_repllang(e, ", f) == EOF)
			return 0;
		if (!gen_labels(f, cfg, &bf->labels_unset))""", """		    "\\t\\t\\t} else if (vlong.isZero()) {\\n"
		    "\\t\\t\\t\\t_classadd(e, \\'ort-unset\\');\\n"
		    "\\t\\t\\t\\t_repllang(e, ", f) == EOF)
			return 0;
		if (!gen_labels(f, cfg, &bf->labels_null))""")],
 "formatting an empty bit-field directly into an element", "the label for null is shown instead of the one for unset",
 r"""
cat >"$t/a.ort" <<'F'
bitfield bb { item one 0 jslabel "o"; isunset jslabel "un"; isnull jslabel "nu"; };
struct a { field b bits bb; };
F
./ort-javascript -S . "$t/a.ort" >"$t/a.ts" || exit 1
[ "$(grep -c "_default: 'un'" "$t/a.ts")" = 2 ]
""")

bug("c23-select-null", "C23", [("ortPrivate.ts", """			const opt = elem as HTMLOptionElement;
			const attrval = opt.value;
			opt.removeAttribute('selected');
			if (val === null || attrval === null)
				continue;
			if (val.toString() === attrval)""", """			const opt = elem as HTMLOptionElement;
			const attrval = opt.value;
			opt.removeAttribute('selected');
			if (val === null || !attrval)
				continue;
			if (val.toString() == attrval || Number(val) === Number(attrval))""")],
 "selecting the option of an enumeration whose values differ only beyond 53 bits", "two options are selected",
 LONG + r"""
cat >"$t/c.ts" <<'F'
F
cat >"$t/d.ort" <<'F'
enum e { item a 9007199254740993; item b 9007199254740992; };
struct a { field v enum e; };
F
./ort-javascript -S . "$t/d.ort" >"$t/d.ts" || exit 1
(cd "$t" && $T --target es2020 --lib es2020,dom d.ts >/dev/null; [ -s d.js ]) || exit 1
cat >"$t/e.js" <<'F'
const opts = ['9007199254740993', '9007199254740992'].map(v => ({ value: v, attrs: {},
	removeAttribute(k) { delete this.attrs[k]; }, setAttribute(k, w) { this.attrs[k] = w; } }));
class H {
	constructor() { this.classList = { contains: c => c === 'a-v-enum-select', add() {}, remove() {} }; }
	getElementsByClassName(c) { return []; }
	getElementsByTagName(n) { return opts; }
}
globalThis.HTMLElement = H;
const src = require('fs').readFileSync(process.argv[2], 'utf8') + ';globalThis.ort = ort;';
new Function('document', src)({ documentElement: { lang: '' }, createTextNode: t => t });
new ort.a({ v: '9007199254740993' }).fill(new H());
const n = opts.filter(o => o.attrs.selected === 'selected').map(o => o.value);
process.exit(n.length === 1 && n[0] === '9007199254740993' ? 0 : 1);
F
node "$t/e.js" "$t/d.js"
""")

# ---------------------------------------------------------------- C24
bug("c24-ts-bit63", "C24", [("lang-nodejs.c", """		    "\\t\\tBITF_%s = \\'%" PRIu64 "\\'", 
		    bi->name, bi->value,
		    bi->name, UINT64_C(1) << (uint64_t)bi->value) < 0)""", """		    "\\t\\tBITF_%s = \\'%" PRId64 "\\'", 
		    bi->name, bi->value,
		    bi->name, (int64_t)(UINT64_C(1) << bi->value)) < 0)""")],
 "a bit-field item with index 63", "the TypeScript constant is negative, unlike the others",
 r"""
cat >"$t/a.ort" <<'F'
bitfield bb { item one 0; item top 63; };
struct a { field b bits bb; };
F
./ort-nodejs "$t/a.ort" | grep -q "BITF_top = '9223372036854775808'"
""")

bug("c24-rust-32", "C24", [("lang-rust.c", """		    "%12s%s = %" PRId64 ",\\n", "", cp, ei->value) < 0)""", """		    "%12s%s = %d,\\n", "", cp, (int)ei->value) < 0)""")],
 "an enumeration value that does not fit 32 bits", "the Rust value is another one",
 r"""
cat >"$t/a.ort" <<'F'
enum e { item a 4294967297; item b -4294967297; };
struct s { field v enum e; };
F
./ort-rust "$t/a.ort" >"$t/x.rs" || exit 1
grep -q '= 4294967297,' "$t/x.rs" && grep -q '= -4294967297,' "$t/x.rs"
""")

bug("c24-js-neg", "C24", [("lang-javascript.c", """			    "\\t\\tstatic readonly %s = "
			    "\\'%" PRId64 "\\';\\n", ei->name, 
			    ei->value) < 0)""", """			    "\\t\\tstatic readonly %s = "
			    "\\'%" PRIu64 "\\';\\n", ei->name, 
			    (uint64_t)ei->value) < 0)""")],
 "a negative enumeration value", "the JavaScript value is another one",
 r"""
cat >"$t/a.ort" <<'F'
enum e { item a -7; };
struct s { field v enum e; };
F
./ort-javascript -S . "$t/a.ort" | grep -q "static readonly a = '-7'"
""")
