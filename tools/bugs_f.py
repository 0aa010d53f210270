# Planted changes for failing resources.
BUGS = []
def bug(id, property, edits, needs, breaks, demo, files=None):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, files=files or {}))

# Fails the n-th allocation of the program itself (not of the C library).
FAIL = r"""
#define _GNU_SOURCE
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t);
static long n, at = -1;
static int fail(void) {
	if (at == -1) { const char *s = getenv("FAIL_AT"); at = s ? atol(s) : 0; }
	if (++n == at) { errno = ENOMEM; return 1; }
	return 0;
}
void *malloc(size_t s) { return fail() ? NULL : __libc_malloc(s); }
void *calloc(size_t a, size_t b) { return fail() ? NULL : __libc_calloc(a, b); }
void *realloc(void *p, size_t s) { return fail() ? NULL : __libc_realloc(p, s); }
"""
# every allocation in turn: failure, or the same output; "want" is the status of success
LOOP = r"""
gcc -shared -fPIC -O1 -o "$t/fail.so" "$here/fail.c" || exit 2
"$@" >"$t/ref" 2>/dev/null; rc=$?
[ $rc = $want ] || exit 3
for n in $(seq 1 700); do
	FAIL_AT=$n LD_PRELOAD="$t/fail.so" "$@" >"$t/out" 2>"$t/err"; r=$?
	if [ $r = $rc ]; then
		cmp -s "$t/ref" "$t/out" || { echo "allocation $n: success, but other output"; exit 1; }
	else
		[ $r = $bad ] || { echo "allocation $n: status $r"; exit 1; }
	fi
done
exit 0
"""

bug("c26-cover-alloc", "C26", [("linker_resolve.c", """			gen_err(cfg, &srcr->pos);
			return 0;
		}
		TAILQ_INSERT_TAIL(&dst->rq, dstr, entries);
""", """			gen_err(cfg, &srcr->pos);
			continue;
		}
		TAILQ_INSERT_TAIL(&dst->rq, dstr, entries);
""")], "an allocation failing at the moment when the roles of \"all\" are added to those of an operation", "a role loses its permission, and the tool succeeds", r"""
cat >"$t/a.ort" <<'F'
roles { role a; role b; role c; };
struct s { field id int rowid; field x int; list x: name l; insert;
	roles a, b { all; }; roles c { list l; insert; }; };
F
set -- ./ort-json "$t/a.ort"; want=0; bad=1
""" + LOOP, {"fail.c": FAIL})

bug("c26-audit-path", "C26", [("audit.c", """	if (path != NULL &&
	    (a->ar.srs[a->ar.srsz].path = strdup(path)) == NULL)
		return 0;
""", """	if (path != NULL)
		a->ar.srs[a->ar.srsz].path = strdup(path);
""")], "an allocation failing when the audit copies the path to a nested structure", "the audit gives a wrong path and succeeds", r"""
cat >"$t/a.ort" <<'F'
roles { role a; };
struct b { field id int rowid; field x int; };
struct s { field id int rowid; field bid:b.id int; field b struct bid; list id: name l; roles a { list l; }; };
F
set -- ./ort-audit-json -r a "$t/a.ort"; want=0; bad=1
""" + LOOP, {"fail.c": FAIL})

bug("c26-diff-offset", "C26", [("diff.c", """			d = diff_alloc(q, DIFF_MOD_SEARCH_OFFSET);
			if (d == NULL)
				return -1;
			d->search_pair.from = from;
			d->search_pair.into = into;
""", """			d = diff_alloc(q, DIFF_MOD_SEARCH_OFFSET);
			if (d == NULL)
				return 0;
			d->search_pair.from = from;
			d->search_pair.into = into;
""")], "an allocation failing when a changed query offset is recorded", "the difference is reported without what has changed", r"""
cat >"$t/a.ort" <<'F'
struct s { field id int rowid; field x int; list x: name l limit 2; };
F
cat >"$t/b.ort" <<'F'
struct s { field id int rowid; field x int; list x: name l limit 2, 3; };
F
set -- ./ort-diff "$t/a.ort" "$t/b.ort"; want=1; bad=2
""" + LOOP, {"fail.c": FAIL})

bug("c26-xliff-short", "C26", [("lang-xliff.c", """		sz = fread(buf, 1, sizeof(buf), f);
		if (ferror(f)) {
			xparse_free(xp);
			return -1;
		}
""", """		sz = fread(buf, 1, sizeof(buf), f);
"""), ("lang-xliff.c", """	} while (!feof(f));

	if (xp->set == NULL""", """	} while (sz == sizeof(buf));

	if (xp->set == NULL""")], "a translation file of more than one buffer of which a later read fails", "an update drops the translations which were not read, and succeeds", r"""
cat >"$t/read.c" <<'F'
#define _GNU_SOURCE
#include <errno.h>
#include <stdio.h>
extern size_t _IO_file_xsgetn(FILE *, void *, size_t);
static int n;
size_t fread(void *p, size_t s, size_t c, FILE *f) {
	if (++n == 2) { f->_flags |= 0x20; errno = EIO; return 0; }
	return fread_unlocked(p, s, c, f);
}
F
gcc -shared -fPIC -O0 -o "$t/read.so" "$t/read.c" || exit 2
cat >"$t/a.ort" <<'F'
enum e { item x jslabel "first"; item y jslabel "second"; };
struct s { field id int rowid; field e enum e; };
F
{
	echo '<xliff version="1.2" xmlns="urn:oasis:names:tc:xliff:document:1.2"><file source-language="en" original="a" target-language="fr" datatype="plaintext"><body>'
	echo '<trans-unit id="1"><source>first</source><target>premier</target></trans-unit>'
	head -c 20000 /dev/zero | tr '\0' ' '
	echo '<trans-unit id="2"><source>second</source><target>deuxieme</target></trans-unit></body></file></xliff>'
} >"$t/a.xliff"
./ort-xliff -u "$t/a.ort" "$t/a.xliff" >"$t/out" 2>/dev/null || exit 3
grep -q deuxieme "$t/out" || exit 3
if LD_PRELOAD="$t/read.so" ./ort-xliff -u "$t/a.ort" "$t/a.xliff" >"$t/out" 2>/dev/null; then
	grep -q deuxieme "$t/out"
fi
""")
