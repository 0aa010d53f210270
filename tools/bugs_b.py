# Planted changes for the generated C (C12-C19).
BUGS = []
def bug(id, property, edits, needs, breaks, demo, files=None):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, files=files or {}))

# ---------------------------------------------------------------- C12
bug("c12-jsonparse-rc", "C12", [("lang-c-source.c", """		case FTYPE_STRUCT:
			hasstruct = 1;
			break;
		case FTYPE_EMAIL:""", """		case FTYPE_STRUCT:
			hasstruct = fd->ref->source->flags & FIELD_NULL;
			break;
		case FTYPE_EMAIL:""")],
 "JSON parsing (-j) of a structure with a nested structure by a non-null reference and no text or blob of its own",
 "generated code uses an undeclared variable and does not compile",
 r"""
cat >"$t/a.ort" <<'F'
struct a { field id int rowid; };
struct b { field aid:a.id; field a struct aid; field n int; };
F
./ort-c-source -S . -h x.h -J "$t/a.ort" >"$t/x.c" || exit 1
awk '/^jsmn_b\(/,/^}/' "$t/x.c" >"$t/f"
grep -q 'rc = jsmn_a' "$t/f" || exit 1
grep -q 'int rc' "$t/f"
""")

bug("c12-tmpint", "C12", [("lang-c-source.c", """		case FTYPE_BIT:
		case FTYPE_BITFIELD:
		case FTYPE_ENUM:
		case FTYPE_DATE:
		case FTYPE_EPOCH:
		case FTYPE_INT:
			needint = 1;
			break;
		default:
			break;
		}

	if (!gen_commentv""", """		case FTYPE_BIT:
		case FTYPE_ENUM:
		case FTYPE_DATE:
		case FTYPE_EPOCH:
		case FTYPE_INT:
			needint = 1;
			break;
		default:
			break;
		}

	if (!gen_commentv""")],
 "a queried structure whose only integral columns are bit-fields",
 "generated code uses an undeclared variable and does not compile",
 r"""
cat >"$t/a.ort" <<'F'
bitfield bb { item one 0; };
struct a { field b bits bb; field t text; search t: name bt; };
F
./ort-c-source -S . -h x.h "$t/a.ort" >"$t/x.c" || exit 1
awk '/^db_a_fill\(/,/^}/' "$t/x.c" >"$t/f"
grep -q '&tmpint' "$t/f" || exit 1
grep -q 'int64_t tmpint' "$t/f"
""")

# ---------------------------------------------------------------- C13
bug("c13-concat-type", "C13", [("lang.c", """				if ((ur->field->flags & FIELD_NULL)) {
					if (fprintf(f, 
					    lang == LANG_JS ?""", """				if (ur->field->type == FTYPE_TEXT &&
				    (ur->field->flags & FIELD_NULL)) {
					if (fprintf(f, 
					    lang == LANG_JS ?""")],
 "an update concatenating to a blob or e-mail column which is NULL",
 "the value stays NULL instead of becoming the given one",
 r"""
cat >"$t/a.ort" <<'F'
struct a { field id int rowid; field e blob null; update e concat: id: name u; };
F
./ort-c-source -S . -h x.h "$t/a.ort" >"$t/x.c" || exit 1
awk '/STMT_a_UPDATE_0 \*\//{getline; print}' "$t/x.c" | grep -qi "coalesce(e"
""")

bug("c13-update-constraint", "C13", [("lang-c-source.c", """	if (up->type == UP_MODIFY) {
		if (fprintf(f, "\\tc = sqlbox_exec\\n"
		    "\\t\\t(db, 0, STMT_%s_UPDATE_%zu,\\n"
		    "\\t\\t %zu, %s, SQLBOX_STMT_CONSTRAINT);\\n\"""", """	if (up->type == UP_MODIFY) {
		/* Only some columns can violate a constraint. */

		TAILQ_FOREACH(ref, &up->mrq, entries)
			if ((ref->field->flags &
			    (FIELD_ROWID|FIELD_UNIQUE)) ||
			    ref->field->ref != NULL)
				break;
		if (fprintf(f, "\\tc = sqlbox_exec\\n"
		    "\\t\\t(db, 0, STMT_%s_UPDATE_%zu,\\n"
		    "\\t\\t %zu, %s, %s);\\n\""""),
  ("lang-c-source.c", """		    "}\\n"
		    "\\n",
		    up->parent->name, num, parms,
		    parms > 0 ? "parms" : "NULL") < 0)
			return 0;
	} else {""", """		    "}\\n"
		    "\\n",
		    up->parent->name, num, parms,
		    parms > 0 ? "parms" : "NULL",
		    ref == NULL ? "0" : "SQLBOX_STMT_CONSTRAINT") < 0)
			return 0;
	} else {""")],
 "an update, of a column which is only in a multi-column unique statement, violating that statement",
 "the program ends instead of the function returning zero",
 r"""
cat >"$t/a.ort" <<'F'
struct a { field id int rowid; field x int; field y int; unique x, y; update x: id: name u; };
F
./ort-c-source -S . -h x.h "$t/a.ort" >"$t/x.c" || exit 1
awk '/STMT_a_UPDATE_0,/{getline; print}' "$t/x.c" | grep -q CONSTRAINT
""")

# ---------------------------------------------------------------- C14
bug("c14-order-two", "C14", [("lang.c", """			    ORDTYPE_ASC == ord->op ?
			    "ASC" : "DESC") < 0)""", """			    ORDTYPE_ASC == TAILQ_FIRST(&s->ordq)->op ?
			    "ASC" : "DESC") < 0)""")],
 "ordering by two columns in different directions, with ties in the first",
 "rows come in the wrong order",
 r"""
cat >"$t/a.ort" <<'F'
struct a { field id int rowid; field n int; list: order n desc, id asc name l; };
F
./ort-c-source -S . -h x.h "$t/a.ort" >"$t/x.c" || exit 1
grep -q 'ORDER BY a\.n DESC, a\.id ASC' "$t/x.c"
""")

bug("c14-null-real", "C14", [("lang-c-source.c", """	if ((fd->flags & FIELD_NULL) &&
	    fputs("\\t} else\\n\\t\\t(*pos)++;\\n", f) == EOF)
		return 0;""", """	if ((fd->flags & FIELD_NULL) && fputs(fd->type == FTYPE_REAL ?
	    "\\t}\\n" : "\\t} else\\n\\t\\t(*pos)++;\\n", f) == EOF)
		return 0;""")],
 "a NULL in a real column followed by another column",
 "later columns of the row are taken from the wrong place",
 r"""
cat >"$t/a.ort" <<'F'
struct a { field r real null; field n int; list: name l; };
F
./ort-c-source -S . -h x.h "$t/a.ort" >"$t/x.c" || exit 1
awk '/^db_a_fill\(/,/^}/' "$t/x.c" | tr -d '\n\t ' >"$t/f"
grep -q 'else(\*pos)++;' "$t/f"
""")

bug("c14-reffind-chain", "C14", [("lang-c-source.c", """		if (!(fd->ref->target->parent->flags &
		    STRCT_HAS_NULLREFS))
			continue;
		if (fprintf(f, "\\tdb_%s_reffind(ctx, &p->%s);\\n",""", """		if (!(fd->ref->target->parent->flags &
		    STRCT_HAS_NULLREFS) ||
		    (fd->ref->source->flags & FIELD_NULL))
			continue;
		if (fprintf(f, "\\tdb_%s_reffind(ctx, &p->%s);\\n",""")],
 "a nullable reference to a structure which itself has a nullable reference, both set",
 "the second nested structure is missing from the result",
 r"""
cat >"$t/a.ort" <<'F'
struct a { field id int rowid; };
struct b { field id int rowid; field aid:a.id int null; field a struct aid; };
struct c { field bid:b.id int null; field b struct bid; list: name l; };
F
./ort-c-source -S . -h x.h "$t/a.ort" >"$t/x.c" || exit 1
awk '/^db_c_reffind\(/,/^}/' "$t/x.c" | grep -q 'db_b_reffind'
""")

bug("c14-reffind-deep", "C14", [("linker.c", """		if (FTYPE_STRUCT == f->type &&
		    check_reffind(cfg, f->ref->target->parent))
			return 1;""", """		if (FTYPE_STRUCT == f->type &&
		    (f->ref->target->parent->height <= p->height + 1 &&
		     check_reffind(cfg, f->ref->target->parent)))
			return 1;""")],
 "a structure reaching a nullable reference only through one whose longest chain of references is longer than the direct one",
 "the nested structure is missing from the result",
 r"""
cat >"$t/a.ort" <<'F'
struct z { field id int rowid; };
struct a { field id int rowid; field zid:z.id int null; field z struct zid; };
struct b { field id int rowid; field aid:a.id; field a struct aid; };
struct d { field bid:b.id; field b struct bid; };
struct c { field aid:a.id; field a struct aid; field k int; list: name l; };
F
./ort-c-source -S . -h x.h "$t/a.ort" >"$t/x.c" || exit 1
awk '/^db_c_list_l\(/,/^}/' "$t/x.c" | grep -q 'db_c_reffind'
""")

# ---------------------------------------------------------------- C15
bug("c15-update-hashes", "C15", [("lang-c-source.c", """			if ((ref->field->flags & FIELD_NULL))
				if (fprintf(f,
				    "\\tif (v%zu != NULL)\\n\\t", idx) < 0)
					return 0;
			if (!gen_newpass(f,
			    (ref->field->flags & FIELD_NULL), hpos, idx))
				return 0;
			hpos++;
		}
		idx++;""", """			if ((ref->field->flags & FIELD_NULL))
				if (fprintf(f,
				    "\\tif (v%zu != NULL)\\n\\t", hpos) < 0)
					return 0;
			if (!gen_newpass(f,
			    (ref->field->flags & FIELD_NULL), hpos, idx))
				return 0;
			hpos++;
		}
		idx++;""")],
 "an update of a nullable password not first among the columns, with a NULL given for one of the others",
 "the password stored is not a hash of the one given",
 r"""
cat >"$t/a.ort" <<'F'
struct a { field id int rowid; field n int null; field p password null; update n, p: id: name u; };
F
./ort-c-source -S . -h x.h "$t/a.ort" >"$t/x.c" || exit 1
awk '/^db_a_update_u\(/,/^}/' "$t/x.c" | grep -B1 crypt_newhash | grep -q 'v2 != NULL'
""")

bug("c15-null-nested", "C15", [("lang-c-source.c", """	if ((sent->field->flags & FIELD_NULL) &&
	    fprintf(f, "!%s || ", hasfd) < 0)""", """	if ((sent->field->flags & FIELD_NULL) && sent->name == NULL &&
	    fprintf(f, "!%s || ", hasfd) < 0)""")],
 "searching for rows not having a password, in a nested structure, which is NULL",
 "the row is found, though NULL satisfies no comparison (or the program crashes)",
 r"""
cat >"$t/a.ort" <<'F'
struct a { field id int rowid; field p password null; };
struct b { field aid:a.id; field a struct aid; list a.p neq: name l; };
F
./ort-c-source -S . -h x.h "$t/a.ort" >"$t/x.c" || exit 1
awk '/^db_b_list_l\(/,/^}/' "$t/x.c" | grep -q '!p->a.has_p'
""")

bug("c15-streq-bind", "C15", [("lang-c-source.c", """	return !(t == FTYPE_PASSWORD &&
		type != OPTYPE_STREQ && type != OPTYPE_STRNEQ);
""", """	return !(t == FTYPE_PASSWORD &&
		(type == OPTYPE_EQUAL || type == OPTYPE_NEQUAL ||
		 type == OPTYPE_STRNEQ));
""")],
 "a query with the strneq operator on a password", "a parameter of the statement is not bound, so nothing is found",
 r"""
cat >"$t/a.ort" <<'F'
struct a { field id int rowid; field p password; list p strneq: name l; };
F
./ort-c-source -S . -h x.h "$t/a.ort" >"$t/x.c" || exit 1
awk '/^db_a_list_l\(/,/^}/' "$t/x.c" | grep -q 'parms\[0\].sparm = v1'
""")

# ---------------------------------------------------------------- C16
bug("c16-hier-depth", "C16", [("lang-c-source.c", """	if (r->parent != NULL &&
	    strcmp(r->parent->name, "all") &&
	    strcmp(r->parent->name, "none") && fprintf(f,""", """	if (r->parent != NULL &&
	    strcmp(r->parent->name, "all") &&
	    strcmp(r->parent->name, "none") &&
	    !TAILQ_EMPTY(&r->parent->parent->subrq) &&
	    TAILQ_FIRST(&r->parent->subrq) == r && fprintf(f,""")],
 "the second or later sub-role of a role using an operation granted to that role",
 "an operation granted to a role is denied to its sub-role",
 r"""
cat >"$t/a.ort" <<'F'
roles { role a { role b; role c; }; };
struct s { field id int rowid; insert; roles a { insert; }; };
F
./ort-c-source -S . -h x.h "$t/a.ort" >"$t/x.c" || exit 1
grep -q 'sqlbox_role_hier_child(hier, ROLE_a, ROLE_b)' "$t/x.c" && grep -q 'sqlbox_role_hier_child(hier, ROLE_a, ROLE_c)' "$t/x.c"
""")

bug("c16-drop-skip", "C16", [("lang-c-source.c", """	for (rp = r->parent; strcmp(rp->name, "all"); rp = rp->parent)
		if (fprintf(f, "\\t\\tcase ROLE_%s:\\n", rp->name) < 0)
			return 0;
""", """	rp = r->parent;
	if (strcmp(rp->name, "all") &&
	    fprintf(f, "\\t\\tcase ROLE_%s:\\n", rp->name) < 0)
		return 0;
""")],
 "changing from a role directly to the parent of its parent",
 "a permitted change of role ends the program",
 r"""
cat >"$t/a.ort" <<'F'
roles { role a { role b { role c; }; }; };
struct s { field id int rowid; insert; roles a { insert; }; };
F
./ort-c-source -S . -h x.h "$t/a.ort" >"$t/x.c" || exit 1
awk '/^db_role\(/,/^}/' "$t/x.c" | tr -d '\n\t ' | grep -q 'caseROLE_c:switch(r){caseROLE_none:caseROLE_b:caseROLE_a:ctx->role=r'
""")

bug("c16-delete-pos", "C16", [("lang-c-source.c", """	TAILQ_FOREACH(u, &p->dq, entries) {
		pos++;
		if (u->rolemap == NULL)
			continue;
		if (asprintf(&buf, "STMT_%s_DELETE_%zu",
		    p->name, pos - 1) < 0)
			return -1;""", """	TAILQ_FOREACH(u, &p->dq, entries) {
		if (u->rolemap == NULL)
			continue;
		if (asprintf(&buf, "STMT_%s_DELETE_%zu",
		    p->name, pos++) < 0)
			return -1;""")],
 "a delete without roles declared before one with a role",
 "the role may use the delete granted to nobody and not the one granted to it",
 r"""
cat >"$t/a.ort" <<'F'
roles { role a; };
struct s { field id int rowid; field n int; delete id: name d; delete n: name e; roles a { delete e; }; };
F
./ort-c-source -S . -h x.h "$t/a.ort" >"$t/x.c" || exit 1
grep -q '(hier, ROLE_a, STMT_s_DELETE_1)' "$t/x.c" && ! grep -q '(hier, ROLE_a, STMT_s_DELETE_0)' "$t/x.c"
""")

bug("c16-all-sibling", "C16", [("linker_resolve.c", """			if (dstr->role == srcr->role)
				break;
		if (dstr != NULL)
			continue;
		if ((dstr = calloc""", """			if (dstr->role->parent == srcr->role->parent)
				break;
		if (dstr != NULL)
			continue;
		if ((dstr = calloc""")],
 "a role granted all operations, and its sibling granted one of them by name",
 "the first role is denied that operation",
 r"""
cat >"$t/a.ort" <<'F'
roles { role a; role b; };
struct s { field id int rowid; insert; delete id: name d; roles a { all; }; roles b { insert; }; };
F
./ort-c-source -S . -h x.h "$t/a.ort" >"$t/x.c" || exit 1
grep -q '(hier, ROLE_a, STMT_s_INSERT)' "$t/x.c"
""")

# ---------------------------------------------------------------- C17
bug("c17-struct-roles", "C17", [("lang-c-source.c", """	if (fd->rolemap != NULL) {
		if (!hassp && fputc('\\n', f) == EOF)
			return 0;
		if (fputs("\\tswitch (db_role_stored\"""", """	if (fd->rolemap != NULL && fd->type != FTYPE_STRUCT) {
		if (!hassp && fputc('\\n', f) == EOF)
			return 0;
		if (fputs("\\tswitch (db_role_stored\""""),
  ("lang-c-source.c", """	if (fd->rolemap != NULL) {
		if (fputs("\\t\\tbreak;\\n\\t}\\n\\n", f) == EOF)""", """	if (fd->rolemap != NULL && fd->type != FTYPE_STRUCT) {
		if (fputs("\\t\\tbreak;\\n\\t}\\n\\n", f) == EOF)""")],
 "a noexport role on a nested structure's field",
 "the nested structure is exported to roles it is withheld from",
 r"""
cat >"$t/a.ort" <<'F'
roles { role r; };
struct a { field id int rowid; };
struct b { field aid:a.id; field a struct aid; roles r { noexport a; }; };
F
./ort-c-source -S . -h x.h -j "$t/a.ort" >"$t/x.c" || exit 1
awk '/^json_b_data\(/,/^}/' "$t/x.c" | grep -q 'case ROLE_r'
""")

bug("c17-blob-len", "C17", [("lang-c-source.c", """		if (fprintf(f, "\\tsz = (p->%s_sz + 2) / 3 * 4 + 1;\\n\"""",
 """		if (fprintf(f, "\\tsz = p->%s_sz * 4 / 3 + 3;\\n\"""")],
 "exporting a blob of certain lengths", "the blob is not exported or the buffer is too small",
 r"""
cat >"$t/a.ort" <<'F'
struct a { field b blob; };
F
./ort-c-source -S . -h x.h -j "$t/a.ort" >"$t/x.c" || exit 1
e=$(awk '/^json_a_data\(/,/^}/' "$t/x.c" | sed -n 's/^\tsz = \(.*\);/\1/p' | head -1 | sed 's/p->b_sz/n/g')
[ -n "$e" ] || exit 1
cat >"$t/a.c" <<F
#include <stddef.h>
int main(void)
{
	size_t n;
	for (n = 0; n < 5000; n++)
		if (($e) < ((n + 2) / 3) * 4 + 1) return 1;
	return 0;
}
F
cc -o "$t/a" "$t/a.c" && "$t/a"
""")

# ---------------------------------------------------------------- C18
bug("c18-clear-nested", "C18", [("lang-c-source.c", """		case FTYPE_STRUCT:
			if (fprintf(f, "\\tjsmn_%s_clear(&p->%s);\\n",""", """		case FTYPE_STRUCT:
			if (!(fd->ref->source->flags & FIELD_NULL) &&
			    fprintf(f, "\\tjsmn_%s_clear(&p->%s);\\n",""")],
 "importing an object with a nested structure by a nullable reference, which has text",
 "memory is leaked when the imported object is cleared",
 r"""
cat >"$t/a.ort" <<'F'
struct a { field id int rowid; field t text; };
struct b { field aid:a.id int null; field a struct aid; };
F
./ort-c-source -S . -h x.h -J "$t/a.ort" >"$t/x.c" || exit 1
awk '/^jsmn_b_clear\(/,/^}/' "$t/x.c" | grep -q 'jsmn_a_clear(&p->a)'
""")

bug("c18-eq-prefix", "C18", [("jsmn.c", """	    (int)strlen(s) == tok->end - tok->start &&
	    strncmp(json""", """	    (int)strlen(s) >= tok->end - tok->start &&
	    strncmp(json""")],
 "importing an object with a member whose name is the beginning of an earlier field's",
 "the value goes into the wrong field, or a wrong member is accepted",
 r"""
cat >"$t/a.c" <<'F'
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdio.h>
#include <errno.h>
typedef enum { JSMN_UNDEFINED, JSMN_OBJECT, JSMN_ARRAY, JSMN_STRING, JSMN_PRIMITIVE } jsmntype_t;
enum jsmnerr { JSMN_ERROR_NOMEM = -1, JSMN_ERROR_INVAL = -2, JSMN_ERROR_PART = -3 };
typedef struct { jsmntype_t type; int start; int end; int size; } jsmntok_t;
typedef struct { unsigned int pos; unsigned int toknext; int toksuper; } jsmn_parser;
#include "jsmn.c"
int main(void)
{
	jsmntok_t k = { JSMN_STRING, 0, 2, 0 };
	return !(jsmn_eq("ab", &k, "ab") && !jsmn_eq("ab", &k, "abc") && !jsmn_eq("ab", &k, "a"));
}
F
cc -w -I. -o "$t/a" "$t/a.c" || exit 1
"$t/a"
""")

# ---------------------------------------------------------------- C19
bug("c19-limit-repeat", "C19", [("lang-c-source.c", """		TAILQ_FOREACH(v, &fd->fvq, entries)
			if (!gen_valids_field(f, fd, v))
				return 0;
		if (fputs("\\treturn 1;\\n}\\n\\n", f) == EOF)""", """		TAILQ_FOREACH(v, &fd->fvq, entries) {
			if (TAILQ_NEXT(v, entries) != NULL &&
			    v->type == TAILQ_NEXT(v, entries)->type)
				continue;
			if (!gen_valids_field(f, fd, v))
				return 0;
		}
		if (fputs("\\treturn 1;\\n}\\n\\n", f) == EOF)""")],
 "a field with two limits of one kind, the tighter one first", "values between the two are accepted",
 r"""
cat >"$t/a.ort" <<'F'
struct s { field n int limit ge 20 limit ge 10; };
F
./ort-c-source -S . -h x.h -v "$t/a.ort" >"$t/x.c" 2>"$t/err" || { cat "$t/err"; exit 1; }
awk '/^valid_s_n\(/,/^}/' "$t/x.c" | grep -q '< 20'
""")

bug("c19-limit-32", "C19", [("lang-c-source.c", """		if (fprintf(f,
		    "\\tif (p->parsed.i %s %" PRId64 ")\\n"
		    "\\t\\treturn 0;\\n",
		    validbins[v->type], v->d.value.integer) < 0)""", """		if (fprintf(f,
		    "\\tif (p->parsed.i %s %d)\\n"
		    "\\t\\treturn 0;\\n",
		    validbins[v->type], (int)v->d.value.integer) < 0)""")],
 "a limit on an integer that does not fit 32 bits", "values are accepted or rejected by another limit",
 r"""
cat >"$t/a.ort" <<'F'
struct s { field n int limit le 5000000000; };
F
./ort-c-source -S . -h x.h -v "$t/a.ort" >"$t/x.c" || exit 1
awk '/^valid_s_n\(/,/^}/' "$t/x.c" | grep -q '5000000000'
""")
