# Planted changes for histories of library calls (C28).
BUGS = []
def bug(id, property, edits, needs, breaks, demo, files=None):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, files=files or {}))

def prog(body, run):
    return r"""
cat >"$t/m.c" <<'F'
#include "config.h"
#include <sys/queue.h>
#include <malloc.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include "ort.h"
#include "ort-lang-c.h"
#include "ort-lang-javascript.h"
#include "ort-lang-sql.h"
#include "ort-lang-xliff.h"
static struct config *load(const char *fn)
{
	struct config *c = ort_config_alloc(); FILE *f = fopen(fn, "r");
	if (c == NULL || f == NULL || !ort_parse_file(c, f, fn) || !ort_parse_close(c)) exit(9);
	fclose(f);
	return c;
}
static char *text(const struct config *c)
{
	char *b; size_t n; FILE *f = open_memstream(&b, &n);
	if (!ort_write_file(f, c)) exit(9);
	fclose(f);
	return b;
}
int main(int argc, char **argv)
{
""" + body + r"""
	return 0;
}
F
${CC:-cc} -w -I. -o "$t/m" "$t/m.c" -Wl,--start-group libort.a libort-lang-*.a -Wl,--end-group -lexpat || exit 1
""" + run

bug("c28-alias-static", "C28", [("linker_aliases.c", """	struct strct	*p;
	size_t		 count = 0;
	struct search	*srch;
""", """	struct strct	*p;
	static size_t	 count = 0;
	struct search	*srch;
""")], "two configurations with references in one process", "the second one's aliases go on from the first one's, so that its output depends on what was parsed before (and after enough of them, it is refused)",
prog(r"""
	char *a[2]; size_t n, i; FILE *f; struct ort_lang_c args; struct config *c;
	for (i = 0; i < 2; i++) {
		c = load(argv[1]); f = open_memstream(&a[i], &n);
		memset(&args, 0, sizeof(args)); args.flags = ORT_LANG_C_DB_SQLBOX;
		if (!ort_lang_c_source(&args, c, f)) return 9;
		fclose(f); ort_config_free(c);
	}
	return strcmp(a[0], a[1]) != 0;
""", r"""
echo 'struct a { field id int rowid; }; struct b { field id int rowid; field aid:a.id int; field a struct aid; list: name x; };' >"$t/a.ort"
"$t/m" "$t/a.ort"
"""))

bug("c28-labels-move", "C28", [("lang-javascript.c", """	const struct label *l;
	size_t		 i;
	const char	*def = NULL;

	TAILQ_FOREACH(l, q, entries)
		if (l->lang == 0) {
			def = l->label;
			break;
		}
""", """	struct label	*l;
	size_t		 i;
	const char	*def = NULL;
	struct labelq	*lq = (struct labelq *)q;

	/* The default is the one looked up most: have it first. */

	TAILQ_FOREACH(l, lq, entries)
		if (l->lang == 0) {
			def = l->label;
			TAILQ_REMOVE(lq, l, entries);
			TAILQ_INSERT_HEAD(lq, l, entries);
			break;
		}
""")], "the client is written before another output of the same configuration, where a default label follows another language's", "writing an output changes the (const) configuration, so that what is written next differs",
prog(r"""
	struct config *c = load(argv[1]); char *a = text(c), *b; struct ort_lang_js args; FILE *f = fopen("/dev/null", "w");
	memset(&args, 0, sizeof(args)); args.ext_privMethods = "";
	if (!ort_lang_javascript(c, &args, f)) return 9;
	b = text(c); fclose(f); ort_config_free(c);
	return strcmp(a, b) != 0;
""", r"""
echo 'enum e { item a jslabel.fr "x" jslabel "y"; item b jslabel "z"; }; struct a { field id int rowid; field e enum e; };' >"$t/a.ort"
"$t/m" "$t/a.ort"
"""))

bug("c28-msg-borrow", "C28", [("log.c", """		if (pos->fname != NULL)
			m->fname = strdup(pos->fname);
""", """		m->fname = (char *)pos->fname;
"""), ("config.c", """		TAILQ_REMOVE(q, m, entries);
		free(m->fname);
		free(m->buf);
""", """		TAILQ_REMOVE(q, m, entries);
		free(m->buf);
""")], "the name of a translation file that the caller frees or reuses before it reads the messages", "the message's file name, which is said to be copied, is whatever is in that memory then",
prog(r"""
	struct config *c = load(argv[1]); struct ort_lang_xliff args; FILE *f = fopen(argv[2], "r"), *o = fopen("/dev/null", "w"); char *fn = strdup("name.xliff"), *b; size_t n;
	struct msgq mq = TAILQ_HEAD_INITIALIZER(mq);
	memset(&args, 0, sizeof(args)); args.in = &f; args.fnames = (const char *const *)&fn; args.insz = 1;
	if (ort_lang_xliff_join(&args, c, o, &mq) > 0) return 9;
	strcpy(fn, "other"); fclose(o);
	o = open_memstream(&b, &n); ort_write_msg_file(o, &mq); fclose(o);
	return strstr(b, "name.xliff") == NULL;
""", r"""
echo 'enum e { item a jslabel "y"; }; struct a { field id int rowid; field e enum e; };' >"$t/a.ort"
echo '<xliff' >"$t/a.xliff"
"$t/m" "$t/a.ort" "$t/a.xliff"
"""))

bug("c28-null-leak", "C28", [("lang-sql.c", """	if (errors)
		goto out;

	rc = -1;
""", """	if (errors)
		return 0;

	rc = -1;
""")], "the differences' SQL is asked for without a queue for messages, and there are some", "every such call loses memory",
prog(r"""
	struct config *a = load(argv[1]), *b = load(argv[2]); struct diffq *q = ort_diff(a, b); FILE *o = fopen("/dev/null", "w"); size_t x, i;
	for (i = 0; i < 200; i++) {
		ort_lang_diff_sql(NULL, q, 0, o, NULL);
		if (i == 100) x = mallinfo2().uordblks;
	}
	return mallinfo2().uordblks > x;
""", r"""
echo 'struct a { field id int rowid; field b int; };' >"$t/a.ort"; echo 'struct a { field id int rowid; };' >"$t/b.ort"
"$t/m" "$t/a.ort" "$t/b.ort"
"""))
