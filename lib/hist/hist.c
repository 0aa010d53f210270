/*
 * Carries out a history of calls of the library.
 * Standard input has one call to a line, its arguments separated by tabs ("-" is NULL).
 * For each, standard output has "@ NUMBER STATUS OUTPUT-LENGTH MESSAGES-LENGTH" and both texts.
 */
#include "config.h"
#include <sys/queue.h>
#include <assert.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include "ort.h"
#include "ort-lang-c.h"
#include "ort-lang-javascript.h"
#include "ort-lang-json.h"
#include "ort-lang-nodejs.h"
#include "ort-lang-rust.h"
#include "ort-lang-sql.h"
#include "ort-lang-xliff.h"

#define MAX 16
static struct config *cfgs[MAX];
static struct diffq *diffs[MAX];
static struct auditq *audits[MAX];
static int state[MAX]; /* 0 none, 1 open, 2 closed, 3 refused */
static const char *stypes[] = { "count", "search", "list", "iterate" };

static char *dup(const char *s)
{
	char *c;
	if (s == NULL || strcmp(s, "-") == 0) return NULL;
	if ((c = strdup(s)) == NULL) abort();
	return c;
}
static char *slurp(const char *fn)
{
	FILE *f; char *b; long n;
	if (strcmp(fn, "-") == 0) return NULL;
	if ((f = fopen(fn, "r")) == NULL) exit(70);
	fseek(f, 0, SEEK_END); n = ftell(f); rewind(f);
	b = malloc((size_t)n + 1);
	if (fread(b, 1, (size_t)n, f) != (size_t)n) exit(70);
	b[n] = '\0'; fclose(f);
	return b;
}
static void pos(FILE *f, const struct pos *p)
{
	fprintf(f, " %s:%zu:%zu\n", p->fname, p->line, p->column);
}
static void audit_out(FILE *f, const struct auditq *q, int verb)
{
	const struct audit *a; size_t i;
	TAILQ_FOREACH(a, q, entries) {
		switch (a->type) {
		case AUDIT_INSERT:
			fprintf(f, "insert %s", a->st->name); pos(f, &a->st->ins->pos); break;
		case AUDIT_UPDATE:
			fprintf(f, "%s %s:%s", a->up->type == UP_DELETE ? "delete" : "update", a->up->parent->name, a->up->name == NULL ? "-" : a->up->name);
			pos(f, &a->up->pos); break;
		case AUDIT_QUERY:
			fprintf(f, "%s %s:%s", stypes[a->sr->type], a->sr->parent->name, a->sr->name == NULL ? "-" : a->sr->name);
			pos(f, &a->sr->pos); break;
		case AUDIT_REACHABLE:
			if (!verb) {
				fprintf(f, "%s %s", a->ar.exported ? "readwrite" : "read", a->ar.st->name); pos(f, &a->ar.st->pos); break;
			}
			for (i = 0; i < a->ar.srsz; i++) {
				fprintf(f, "%s %s:%s:%s:%s", a->ar.srs[i].exported ? "readwrite" : "read", a->ar.st->name, stypes[a->ar.srs[i].sr->type],
				    a->ar.srs[i].sr->name == NULL ? "-" : a->ar.srs[i].sr->name, a->ar.srs[i].path == NULL ? "-" : a->ar.srs[i].path);
				pos(f, &a->ar.srs[i].sr->pos);
			}
			break;
		}
	}
}

int main(void)
{
	char *line = NULL; size_t lsz = 0; ssize_t n; int num = 0;
	while ((n = getline(&line, &lsz, stdin)) > 0) {
		char *v[64] = { NULL }; int c = 0, rc = -9; char *p;
		char *ob = NULL, *mb = NULL, *s1, *s2, *s3; size_t osz = 0, msz = 0; FILE *o, *m;
		struct config *cfg = NULL;
		if (line[n - 1] == '\n') line[n - 1] = '\0';
		for (p = line; p != NULL && c < 63; ) { v[c++] = p; if ((p = strchr(p, '\t')) != NULL) *p++ = '\0'; }
		o = open_memstream(&ob, &osz); m = open_memstream(&mb, &msz);
		unsigned A = (unsigned)(c > 1 ? atoi(v[1]) : 0), B = (unsigned)(c > 2 ? atoi(v[2]) : 0), C = (unsigned)(c > 3 ? atoi(v[3]) : 0);
		assert(A < MAX);
		cfg = cfgs[A];
#define IS(x) (strcmp(v[0], x) == 0)
		if (IS("alloc")) { assert(cfgs[A] == NULL); cfgs[A] = ort_config_alloc(); rc = cfgs[A] != NULL; state[A] = 1; }
		else if ((IS("parse") || IS("close")) && state[A] != 1) rc = -8;
		else if (IS("parse")) {
			FILE *f = fopen(v[2], "r"); if (f == NULL) exit(70);
			s1 = dup(v[2]);
			rc = ort_parse_file(cfg, f, s1) != 0;
			if (!rc) state[A] = 3;
			fclose(f); memset(s1, '#', strlen(s1)); free(s1);
		}
		else if (IS("close")) { rc = ort_parse_close(cfg) != 0; state[A] = rc ? 2 : 3; }
		else if (IS("free")) { ort_config_free(cfg); cfgs[A] = NULL; rc = 1; state[A] = 0; }
		else if (IS("msgs")) rc = ort_write_msg_file(o, &cfg->mq) != 0;
		else if (IS("write")) rc = ort_write_file(o, cfg) != 0;
		else if (IS("json")) { struct ort_lang_json a; memset(&a, 0, sizeof(a)); a.flags = B; rc = ort_lang_json(&a, cfg, o) != 0; }
		else if (IS("sql")) rc = ort_lang_sql(NULL, cfg, o) != 0;
		else if (IS("rust")) { struct ort_lang_rust a; memset(&a, 0, sizeof(a)); rc = ort_lang_rust(&a, cfg, o) != 0; }
		else if (IS("node")) { struct ort_lang_nodejs a; memset(&a, 0, sizeof(a)); a.flags = B; rc = ort_lang_nodejs(&a, cfg, o) != 0; }
		else if (IS("js")) {
			struct ort_lang_js a; memset(&a, 0, sizeof(a)); a.flags = B;
			s1 = dup(v[3]); s2 = slurp(v[4]); a.ns = s1; a.ext_privMethods = s2;
			rc = ort_lang_javascript(cfg, &a, o) != 0;
			free(s1); free(s2);
		}
		else if (IS("chead") || IS("csrc") || IS("cman")) {
			struct ort_lang_c a; memset(&a, 0, sizeof(a)); a.flags = B; a.includes = C;
			s1 = dup(v[4]); s2 = dup(v[5]); s3 = slurp(v[6]); a.guard = s1; a.header = s2; a.ext_jsmn = s3;
			rc = (IS("chead") ? ort_lang_c_header(&a, cfg, o) : IS("csrc") ? ort_lang_c_source(&a, cfg, o) : ort_lang_c_manpage(&a, cfg, o)) != 0;
			free(s1); free(s2); free(s3);
		}
		else if (IS("diff")) { assert(diffs[A] == NULL); diffs[A] = ort_diff(cfgs[B], cfgs[C]); rc = diffs[A] != NULL; }
		else if (IS("dwrite")) {
			char *fr[16], *in[16]; size_t i, j, k = 3;
			for (i = 0; i < B; i++) fr[i] = dup(v[k++]);
			for (j = 0; k < (size_t)c; j++) in[j] = dup(v[k++]);
			rc = ort_write_diff_file(o, diffs[A], (const char *const *)in, j, (const char *const *)fr, i) != 0;
			for (k = 0; k < i; k++) free(fr[k]);
			for (k = 0; k < j; k++) free(in[k]);
		}
		else if (IS("dsql")) {
			struct msgq mq = TAILQ_HEAD_INITIALIZER(mq);
			rc = ort_lang_diff_sql(NULL, diffs[A], (int)B, o, C ? NULL : &mq);
			ort_write_msg_file(m, &mq); ort_msgq_free(&mq);
		}
		else if (IS("dfree")) { ort_diffq_free(diffs[A]); diffs[A] = NULL; rc = 1; }
		else if (IS("audit")) {
			const struct role *r = NULL, *x; assert(audits[A] == NULL);
			TAILQ_FOREACH(x, &cfgs[B]->arq, allentries) if (strcmp(x->name, v[3]) == 0) r = x;
			if (r == NULL) rc = 0;
			else { audits[A] = ort_audit(r, cfgs[B]); rc = audits[A] != NULL; }
		}
		else if (IS("awrite")) { if (audits[A] == NULL) rc = 0; else { audit_out(o, audits[A], (int)B); rc = 1; } }
		else if (IS("afree")) { ort_auditq_free(audits[A]); audits[A] = NULL; rc = 1; }
		else if (IS("xext") || IS("xjoin") || IS("xupd")) {
			struct ort_lang_xliff a; struct msgq mq = TAILQ_HEAD_INITIALIZER(mq); FILE *in[16]; const char *fn[16]; size_t i;
			memset(&a, 0, sizeof(a)); a.flags = B & 0xff; a.in = in; a.fnames = fn; a.insz = (size_t)(c - 3);
			for (i = 0; i < a.insz; i++) { if ((in[i] = fopen(v[3 + i], "r")) == NULL) exit(70); fn[i] = dup(v[3 + i]); }
			rc = IS("xext") ? ort_lang_xliff_extract(&a, cfg, o, B & 0x100 ? NULL : &mq) : IS("xjoin") ? ort_lang_xliff_join(&a, cfg, o, B & 0x100 ? NULL : &mq) : ort_lang_xliff_update(&a, cfg, o, B & 0x100 ? NULL : &mq);
			for (i = 0; i < a.insz; i++) { fclose(in[i]); memset((char *)fn[i], '#', strlen(fn[i])); free((char *)fn[i]); }
			ort_write_msg_file(m, &mq); ort_msgq_free(&mq);
		}
		else exit(71);
		fclose(o); fclose(m);
		printf("@ %d %d %zu %zu\n", num++, rc, osz, msz);
		fwrite(ob, 1, osz, stdout); fwrite(mb, 1, msz, stdout); fflush(stdout);
		free(ob); free(mb);
	}
	free(line);
	for (n = 0; n < MAX; n++) { ort_diffq_free(diffs[n]); ort_auditq_free(audits[n]); }
	for (n = 0; n < MAX; n++) ort_config_free(cfgs[n]);
	return 0;
}
