# Planted changes for the front end, formatting, differencing, SQL, audit, JSON and XLIFF properties.
BUGS = []
def bug(id, property, edits, needs, breaks, demo, files=None):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, files=files or {}))

bug("c01-count-password", "C01", [("linker.c", """			if (!OPTYPE_ISUNARY(sent->op) &&
			    sent->op != OPTYPE_STREQ &&
			    sent->op != OPTYPE_STRNEQ &&
			    sent->field->type == FTYPE_PASSWORD) {
				gen_errx(cfg, &sent->pos, "passwords "
					"for count only accept unary "
					"and string operators");
				errs++;
			}
""", """			if (sent->field->type == FTYPE_PASSWORD) {
				if (OPTYPE_ISUNARY(sent->op) ||
				    sent->op == OPTYPE_STREQ ||
				    sent->op == OPTYPE_STRNEQ)
					break;
				gen_errx(cfg, &sent->pos, "passwords "
					"for count only accept unary "
					"and string operators");
				errs++;
			}
""")],
 "a count query with two password terms, the first with an allowed operator and a later one without",
 "a count by password hash is accepted",
 r"""
cat >"$t/a.ort" <<'F'
struct s { field id int rowid; field p password; field q password;
 count p streq, q: name n; };
F
! ./ort "$t/a.ort" >"$t/out" 2>&1
""")

bug("c01-grouprow-same", "C01", [("linker.c", """		if (srch->aggr->field->parent !=
		    srch->group->field->parent) {""", """		if (srch->aggr->chainsz !=
		    srch->group->chainsz) {""")],
 "a grouprow query whose group and constraint columns are in different structures at the same nesting depth",
 "a configuration which breaks the rule that both columns are of one structure is accepted",
 r"""
cat >"$t/a.ort" <<'F'
struct b { field id int rowid; field n int; };
struct c { field id int rowid; field m int; };
struct s { field bid:b.id int; field cid:c.id int; field b struct bid; field c struct cid;
 list: name l grouprow b.n maxrow c.m; };
F
! ./ort "$t/a.ort" >"$t/out" 2>&1
""")

bug("c02-resolve-label", "C02", [("parser_enum.c", """		TAILQ_INSERT_TAIL(&e->eq, ei, entries);

		TAILQ_INIT(&ei->labels);
		parse_point(p, &ei->pos);
		ei->parent = e;
		if ((ei->name = strdup(p->last.string)) == NULL) {
			parse_err(p);
			return;
		}

		for (cp = ei->name; *cp != '\\0'; cp++)
			*cp = (char)tolower((unsigned char)*cp);

		parse_enum_item(p, ei);
""", """		TAILQ_INIT(&ei->labels);
		parse_point(p, &ei->pos);
		ei->parent = e;
		if ((ei->name = strdup(p->last.string)) == NULL) {
			parse_err(p);
			return;
		}

		for (cp = ei->name; *cp != '\\0'; cp++)
			*cp = (char)tolower((unsigned char)*cp);

		parse_enum_item(p, ei);
		if (PARSE_STOP(p))
			return;
		TAILQ_INSERT_TAIL(&e->eq, ei, entries);
""")],
 "a syntax error inside an enumeration item (after its name)",
 "the item is leaked on the error path",
 r"""
# Link the sources with a leak-checking main, as the programs free everything on error.
cat >"$t/a.ort" <<'F'
enum e { item a 1 comment "x" foo; };
struct s { field f enum e; };
F
gcc -fsanitize=address -g -I. -o "$t/ort" main.c config.c compats.c diff.c linker*.c parser*.c writer*.c log.c -lm 2>"$t/err" || { cat "$t/err"; exit 2; }
ASAN_OPTIONS=detect_leaks=1 LSAN_OPTIONS=exitcode=97 "$t/ort" "$t/a.ort" >"$t/out" 2>&1
test $? -eq 1
""")

bug("c03-enum-negative-auto", "C03", [("parser_enum.c", """		maxvalue = maxvalue < 0 ? 0 : maxvalue + 1;
""", """		maxvalue = maxvalue <= 0 ? 0 : maxvalue + 1;
"""), ("parser_enum.c", """		maxv = maxv < 0 ? 0 : maxv + 1;
""", """		maxv = maxv <= 0 ? 0 : maxv + 1;
""")],
 "an enumeration whose greatest explicit value is zero and which has an automatic item",
 "the automatic value collides with the explicit zero",
 r"""
cat >"$t/a.ort" <<'F'
enum e { item a 0; item b; };
struct s { field f enum e; };
F
./ort-c-header "$t/a.ort" >"$t/out" 2>&1 || exit 1
grep -Eq 'E_a = 0' "$t/out" && grep -Eq 'E_b = 1' "$t/out"
""")

bug("c04-offset", "C04", [("writer.c", """		if (p->offset && !wprint(w, ",%" PRId64, p->offset))""", """		if (p->offset > 1 && !wprint(w, ",%" PRId64, p->offset))""")],
 "a query with an offset of exactly one row",
 "formatting loses the offset, so the output denotes another configuration",
 r"""
cat >"$t/a.ort" <<'F'
struct s { field id int rowid; list: name l order id limit 5,1; };
F
./ort "$t/a.ort" >"$t/b.ort" || exit 1
./ort-diff "$t/a.ort" "$t/b.ort" >"$t/out"
""")

bug("c05-bitf-unset-case", "C05", [("parser_struct.c", """			if (strcasecmp(p->last.string, "asc") == 0 ||
			    strcasecmp(p->last.string, "desc") == 0)""", """			if (strcmp(p->last.string, "asc") == 0 ||
			    strcmp(p->last.string, "desc") == 0)""")],
 "an order clause whose direction is written in upper case",
 "letter case of a keyword changes the meaning (or acceptance) of a configuration",
 r"""
cat >"$t/a.ort" <<'F'
struct s { field id int rowid; field n int; list: name l order id DESC, n Asc limit 2; };
F
cat >"$t/b.ort" <<'F'
struct s { field id int rowid; field n int; list: name l order id desc, n asc limit 2; };
F
./ort "$t/a.ort" >"$t/x" 2>/dev/null || exit 1
./ort "$t/b.ort" >"$t/y" 2>/dev/null || exit 1
cmp "$t/x" "$t/y"
""")

bug("c06-uref-mod", "C06", [("diff.c", """	if (strcasecmp(from->field->name, into->field->name) ||
	    from->op != into->op ||
	    from->mod != into->mod)
		return 0;""", """	if (strcasecmp(from->field->name, into->field->name))
		return 0;
	if (from->op != into->op)
		return 0;
	if (from->mod != into->mod && from->mod != MODTYPE_SET)
		return 0;""")],
 "two configurations that differ only in one update modifier that was 'set' before",
 "the difference is not reported, and only in one direction",
 r"""
cat >"$t/a.ort" <<'F'
struct s { field id int rowid; field n int; update n: id: name u; };
F
sed 's/update n:/update n inc:/' "$t/a.ort" >"$t/b.ort"
./ort-diff "$t/b.ort" "$t/a.ort" >/dev/null; test $? -eq 1 || exit 1
./ort-diff "$t/a.ort" "$t/b.ort" >/dev/null; test $? -eq 1
""")

bug("c07-fk-self", "C07", [("lang-sql.c", """	if (fd->actdel != UPACT_NONE &&
	    fprintf(f, " ON DELETE %s", upacts[fd->actdel]) < 0)
		return 0;
	if (fd->actup != UPACT_NONE &&
	    fprintf(f, " ON UPDATE %s", upacts[fd->actup]) < 0)
		return 0;

	*first = 0;""", """	if (fd->actdel != UPACT_NONE &&
	    fprintf(f, " ON DELETE %s", upacts[fd->actdel]) < 0)
		return 0;
	if (fd->actup != UPACT_NONE && fd->actup != fd->actdel &&
	    fprintf(f, " ON UPDATE %s", upacts[fd->actup]) < 0)
		return 0;

	*first = 0;""")],
 "a foreign key with the same action on deletion and update",
 "the update action of the schema is lost",
 r"""
cat >"$t/a.ort" <<'F'
struct p { field id int rowid; field k int unique; };
struct c { field id int rowid; field k:p.k int actdel cascade actup cascade; };
F
./ort-sql "$t/a.ort" >"$t/s.sql" || exit 1
python3 - "$t/s.sql" <<'F'
import sqlite3,sys
d=sqlite3.connect(":memory:",isolation_level=None); d.executescript(open(sys.argv[1]).read()); d.execute("PRAGMA foreign_keys=ON")
d.execute("INSERT INTO p VALUES (1,10)"); d.execute("INSERT INTO c VALUES (1,10)")
try: d.execute("UPDATE p SET k=11")
except sqlite3.Error: sys.exit(1)
sys.exit(0 if d.execute("SELECT k FROM c").fetchall()==[(11,)] else 1)
F
""")

bug("c08-unique-flag", "C08", [("lang-sql.c", """			if (!(d->field_pair.from->flags & 
			     FIELD_UNIQUE) &&
			    (d->field_pair.into->flags & 
		 	      FIELD_UNIQUE)) {""", """			if (!(d->field_pair.from->flags & 
			     FIELD_UNIQUE) &&
			    (d->field_pair.into->flags ==
		 	      FIELD_UNIQUE)) {""")],
 "a field (with some other flag, such as noexport or a default) that becomes unique",
 "the migration script succeeds without creating the unique index",
 r"""
cat >"$t/a.ort" <<'F'
struct p { field id int rowid; field k int noexport; };
F
sed 's/noexport/noexport unique/' "$t/a.ort" >"$t/b.ort"
./ort-sqldiff "$t/a.ort" "$t/b.ort" >"$t/d.sql" || exit 1
./ort-sql "$t/a.ort" >"$t/s.sql" || exit 1
python3 - "$t/s.sql" "$t/d.sql" <<'F'
import sqlite3,sys
d=sqlite3.connect(":memory:",isolation_level=None)
for f in sys.argv[1:]: d.executescript(open(f).read())
d.execute("INSERT INTO p VALUES (1,10)")
try: d.execute("INSERT INTO p VALUES (2,10)")
except sqlite3.Error: sys.exit(0)
sys.exit(1)
F
""")


bug("c09-override", "C09", [("audit.c", """	if (a->ar.exported == 0 && exported == 1)
		a->ar.exported = 1;
""", """	if (a->ar.exported == 0 && exported == 1 && path == NULL)
		a->ar.exported = 1;
""")],
 "a structure first reached through a non-exported field and later, nested in another structure, through an exported one",
 "the audit calls a structure not exported although its fields are exported on the second path",
 r"""
cat >"$t/a.ort" <<'F'
roles { role r; };
struct a { field id int rowid; };
struct c { field aid:a.id int; field a struct aid; list: name l; roles r { list l; }; };
struct d { field aid:a.id int; field a struct aid noexport; list: name l; roles r { list l; }; };
F
./ort-audit -r r "$t/a.ort" >"$t/out" 2>/dev/null || exit 1
grep -Eq '^readwrite +a ' "$t/out"
""")

bug("c10-rolemap-name", "C10", [("lang-json.c", """	TAILQ_FOREACH(l, q, entries) {
		lang = cfg->langs[l->lang][0] == '\\0' ?
			"_default" : cfg->langs[l->lang];
		if (!gen_label(f, lang, l, cfg))
			return 0;
		if (TAILQ_NEXT(l, entries) != NULL && 
		    fputc(',', f) == EOF)
			return 0;
	}
""", """	TAILQ_FOREACH(l, q, entries) {
		lang = cfg->langs[l->lang][0] == '\\0' ?
			"_default" : cfg->langs[l->lang];
		if (!gen_label(f, lang, l, cfg))
			return 0;
		if (l->lang + 1 < cfg->langsz && 
		    TAILQ_NEXT(l, entries) != NULL && 
		    fputc(',', f) == EOF)
			return 0;
	}
""")],
 "an item whose labels are written with the language that appeared last in the configuration before another one",
 "the JSON document is malformed",
 r"""
cat >"$t/a.ort" <<'F'
enum e { item a 1 jslabel "x" jslabel.fr "y"; item b 2 jslabel.fr "y" jslabel "x"; };
struct s { field f enum e; };
F
./ort-json "$t/a.ort" >"$t/out" 2>/dev/null || exit 1
python3 -c 'import json,sys; json.load(open(sys.argv[1]))' "$t/out"
""")

bug("c11-update-target", "C11", [("lang-xliff.c", """	if (i == x->usz) {
		pp = reallocarray(x->u, """, """	for (i = 0; i < x->usz; i++)
		if (strcasecmp(x->u[i].source, l->label) == 0)
			break;

	if (i == x->usz) {
		pp = reallocarray(x->u, """)],
 "a label that differs only in letter case from one already in the translation file",
 "updating a translation file does not cover the new label",
 r"""
cat >"$t/a.ort" <<'F'
enum e { item a 1 jslabel "Yes"; item b 2 jslabel "yes"; };
struct s { field f enum e; };
F
cat >"$t/a.xliff" <<'F'
<xliff version="1.2" xmlns="urn:oasis:names:tc:xliff:document:1.2">
<file target-language="fr" source-language="en" original="a" datatype="plaintext"><body>
<trans-unit id="1"><source>Yes</source><target>Oui</target></trans-unit>
</body></file></xliff>
F
./ort-xliff -u "$t/a.ort" -x "$t/a.xliff" >"$t/out" 2>/dev/null || ./ort-xliff -u "$t/a.ort" "$t/a.xliff" >"$t/out" 2>/dev/null || exit 1
grep -q '<source>Yes<' "$t/out" && grep -q '<source>yes<' "$t/out"
""")
