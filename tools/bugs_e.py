# More planted changes, for the parser, comparison, schema, audit, JSON and translation tools.
BUGS = []
def bug(id, property, edits, needs, breaks, demo, files=None):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, files=files or {}))

bug("c01-count-streq", "C01", [("linker.c", """			if (!OPTYPE_ISUNARY(sent->op) &&
			    sent->op != OPTYPE_STREQ &&
			    sent->op != OPTYPE_STRNEQ &&
			    sent->field->type == FTYPE_PASSWORD) {
""", """			if (!OPTYPE_ISUNARY(sent->op) &&
			    sent->op != OPTYPE_STREQ &&
			    sent->field->type == FTYPE_PASSWORD) {
""")], "a count query comparing a password by strneq", "an acceptable configuration is refused", r"""
cat >"$t/a.ort" <<'F'
struct a { field id int rowid; field p password; count p strneq: name n; };
F
./ort "$t/a.ort" >/dev/null 2>&1
""")

bug("c01-order-null-struct", "C01", [("linker_resolve.c", """		assert(f->ref->source != NULL);
		if (f->ref->source->flags & FIELD_NULL) {
""", """		assert(f->ref->source != NULL);
		if (i == 0 && (f->ref->source->flags & FIELD_NULL)) {
""")], "a name through three structures, where the second reference is nullable", "a query through a nullable structure is accepted", r"""
cat >"$t/a.ort" <<'F'
struct a { field id int rowid; field x int; };
struct b { field id int rowid; field aid:a.id int null; field a struct aid; };
struct c { field id int rowid; field bid:b.id int; field b struct bid; list b.a.x: name n; };
F
! ./ort "$t/a.ort" >/dev/null 2>&1
""")

bug("c02-xliff-escape", "C02", [("lang-xliff.c", """	bufsz = sz + count * 5 + 1;
""", """	bufsz = sz + count * 4 + 1;
""")], "a label of which most characters are quotation marks or apostrophes", "the buffer of the escaped text is too small: the text is cut and written beyond", r"""
cat >"$t/a.ort" <<'F'
enum e { item x jslabel "''''''''''''"; };
struct a { field id int rowid; field e enum e; };
F
./ort-xliff "$t/a.ort" >"$t/out" 2>/dev/null || exit 1
[ "$(grep -o '&apos;' "$t/out" | wc -l)" = 12 ]
""")

bug("c04-doc-only", "C04", [("writer.c", """	if (TAILQ_EMPTY(&p->crq) &&
	    p->name == NULL && p->doc == NULL)
		return wputs(w, ";\\n");
""", """	if (TAILQ_EMPTY(&p->crq) &&
	    p->name == NULL && (p->doc == NULL || p->type == UP_DELETE))
		return wputs(w, ";\\n");
""")], "a delete with neither constraints nor a name but with a comment", "the comment is lost", r"""
cat >"$t/a.ort" <<'F'
struct a { field id int rowid; delete : comment "all"; };
F
./ort "$t/a.ort" >"$t/b.ort" 2>/dev/null || exit 1
./ort-diff "$t/a.ort" "$t/b.ort" >/dev/null 2>&1
""")

bug("c06-label-case", "C06", [("diff.c", """			if (strcmp(linto->label, lfrom->label))
""", """			if (strcasecmp(linto->label, lfrom->label))
""")], "a label of which only the case changes", "the change is not reported", r"""
cat >"$t/a.ort" <<'F'
enum e { item x jslabel "Yes"; };
struct a { field id int rowid; field e enum e; };
F
sed 's/Yes/YES/' "$t/a.ort" >"$t/b.ort"
./ort-diff "$t/a.ort" "$t/b.ort" >/dev/null 2>&1
[ $? = 1 ]
""")

bug("c07-fk-both", "C07", [("lang-sql.c", """	if (fd->actup != UPACT_NONE &&
	    fprintf(f, " ON UPDATE %s", upacts[fd->actup]) < 0)
		return 0;

	*first = 0;
""", """	if (fd->actup != UPACT_NONE && fd->actup != fd->actdel &&
	    fprintf(f, " ON UPDATE %s", upacts[fd->actup]) < 0)
		return 0;

	*first = 0;
""")], "a reference with the same action on deletion and update", "changing the referenced value is refused rather than followed", r"""
cat >"$t/a.ort" <<'F'
struct p { field id int rowid; field k int unique; };
struct c { field id int rowid; field pk:p.k int actdel cascade actup cascade; };
F
./ort-sql "$t/a.ort" >"$t/s.sql" || exit 1
python3 - "$t/s.sql" <<'F'
import sqlite3,sys
d=sqlite3.connect(":memory:",isolation_level=None)
d.executescript(open(sys.argv[1]).read())
d.execute("INSERT INTO p VALUES (1,10)"); d.execute("INSERT INTO c VALUES (1,10)")
try: d.execute("UPDATE p SET k=11")
except sqlite3.Error: sys.exit(1)
sys.exit(d.execute("SELECT pk FROM c").fetchone()[0]!=11)
F
""")

bug("c08-unique-null", "C08", [("lang-sql.c", """			if (!(d->field_pair.from->flags & 
			     FIELD_UNIQUE) &&
			    (d->field_pair.into->flags & 
		 	      FIELD_UNIQUE)) {
""", """			if (!(d->field_pair.from->flags & 
			     (FIELD_UNIQUE | FIELD_NULL)) &&
			    (d->field_pair.into->flags & 
		 	      FIELD_UNIQUE)) {
""")], "a nullable field becoming unique", "the migrated database does not enforce it", r"""
cat >"$t/a.ort" <<'F'
struct p { field id int rowid; field k int null; };
F
sed 's/null/null unique/' "$t/a.ort" >"$t/b.ort"
./ort-sqldiff "$t/a.ort" "$t/b.ort" >"$t/d.sql" || exit 1
./ort-sql "$t/a.ort" >"$t/s.sql" || exit 1
python3 - "$t/s.sql" "$t/d.sql" <<'F'
import sqlite3,sys
d=sqlite3.connect(":memory:",isolation_level=None)
for f in sys.argv[1:]: d.executescript(open(f).read())
d.execute("INSERT INTO p VALUES (1,10)")
try: d.execute("INSERT INTO p VALUES (2,10)")
except sqlite3.Error: sys.exit(0)
sys.exit(1)
F
""")

bug("c08-drop-bits", "C08", [("lang-sql.c", """		case DIFF_DEL_BITIDX:
			if (destruct)
				break;
""", """		case DIFF_DEL_BITIDX:
			if (destruct || d->bitidx->value >= 32)
				break;
""")], "the removal of a bit beyond the 32nd without the destructive flag", "the removal is not refused", r"""
cat >"$t/a.ort" <<'F'
bits b { item x 1; item y 40; };
struct p { field id int rowid; field k bits b; };
F
sed 's/item y 40;//' "$t/a.ort" >"$t/b.ort"
! ./ort-sqldiff "$t/a.ort" "$t/b.ort" >/dev/null 2>&1
""")

bug("c09-all-cover", "C09", [("linker_resolve.c", """		if (dstr != NULL)
			continue;
		if ((dstr = calloc(1, sizeof(struct rref))) == NULL) {
			gen_err(cfg, &srcr->pos);
""", """		if (dstr != NULL)
			break;
		if ((dstr = calloc(1, sizeof(struct rref))) == NULL) {
			gen_err(cfg, &srcr->pos);
""")], "roles allowed everything, of which an earlier one is also named for an operation", "the later roles are not allowed the operation", r"""
cat >"$t/a.ort" <<'F'
roles { role r; role s; };
struct a { field id int rowid; field x int; delete id: name d; roles r { delete d; }; roles r, s { all; }; };
F
./ort-audit -r s "$t/a.ort" 2>/dev/null | grep -q 'a:d'
""")

bug("c09-parent-leaf", "C09", [("audit.c", """		for (rc = r; rc != NULL; rc = rc->parent)
			if (rc == rr->role)
				return 1;
""", """		for (rc = r; rc != NULL; rc = rc->parent)
			if (rc == rr->role)
				return rm->type != ROLEMAP_NOEXPORT ||
					rc == r || rc == r->parent;
""")], "a field not exported to a role two levels above the audited one", "the field is reported as exported", r"""
cat >"$t/a.ort" <<'F'
roles { role r { role s { role u; }; }; };
struct a { field id int rowid; field x int; list: name l; roles r { list l; noexport x; }; };
F
./ort-audit-json -s -r u "$t/a.ort" >"$t/u" 2>/dev/null || exit 1
tr -d ' \t\n' <"$t/u" | grep -q '"a.x":{"export":false'

""")

bug("c11-extract-case", "C11", [("lang-xliff.c", """		if (strcmp((*s)[i], l->label) == 0)
			return 1;
""", """		if (strcasecmp((*s)[i], l->label) == 0)
			return 1;
""")], "two labels which differ only in case", "one of them is not extracted", r"""
cat >"$t/a.ort" <<'F'
enum e { item x jslabel "May"; item y jslabel "may"; };
struct a { field id int rowid; field e enum e; };
F
./ort-xliff "$t/a.ort" >"$t/out" 2>/dev/null || exit 1
[ "$(grep -c '<source>' "$t/out")" = 2 ]
""")

bug("c14-alias-27", "C14", [("linker_aliases.c", """		else if (*offs >= 26)
			c = asprintf""", """		else if (*offs > 26)
			c = asprintf""")], "a configuration with more than 26 nested structures in all, and a query of the one having the 27th", "the statement is not SQL", r"""
python3 - >"$t/a.ort" <<'F'
print("struct z { field id int rowid; };")
for i in range(9):
    print("struct s%c { field id int rowid; %s list: name all; };" % (97 + i, " ".join("field z%did:z.id int; field z%d struct z%did;" % (j, j, j) for j in range(3))))
F
./ort-sql "$t/a.ort" >"$t/s.sql" || exit 1
./ort-c-source -S "$PWD" -h x.h "$t/a.ort" >"$t/a.c" 2>/dev/null || exit 1
python3 - "$t" <<'F' || exit 1
import re,sys
s=open(sys.argv[1]+"/a.c").read()
i=re.search(r"enum\s+stmt\s*\{",s).start(); j=s.index("\n};",s.index("stmts[STMT__MAX]"))
open(sys.argv[1]+"/p.c","w").write("#include <stdio.h>\n"+s[i:j+3]+'\nint main(void){for(int i=0;i<STMT__MAX;i++)puts(stmts[i]);return 0;}\n')
F
${CC:-cc} -w -o "$t/p" "$t/p.c" && "$t/p" >"$t/q" || exit 1
python3 - "$t" <<'F'
import sqlite3,sys
d=sqlite3.connect(":memory:"); d.executescript(open(sys.argv[1]+"/s.sql").read())
n=0
for q in open(sys.argv[1]+"/q"):
    if "?" in q: continue
    try: d.execute(q); n+=1
    except sqlite3.Error as e: sys.exit("%s: %s"%(e,q))
sys.exit(n<9)
F
""")
