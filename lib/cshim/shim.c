#define _GNU_SOURCE
#include <ctype.h>
#include <errno.h>
#include <inttypes.h>
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <sqlite3.h>
#include "compat.h"
#include "sqlbox.h"
#include "kcgi.h"
#include "kcgijson.h"
#include "shim.h"

/* ------------------------------------------------------------ sqlbox */
const char *shim_schema;		/* SQL run on the fresh database */
sqlite3 *shim_db;
int shim_trace;
unsigned int shim_errs;			/* statements that failed to prepare, bad use of the interface */

struct shstmt { sqlite3_stmt *s; size_t idx; int done; struct sqlbox_parmset set; size_t alloc; struct shstmt *prev; int multi; };
struct sqlbox {
	struct sqlbox_pstmt *stmts; size_t stmtsz;
	struct sqlbox_role *roles; size_t rolesz; size_t role; int trans; size_t transid;
	sqlite3 *db; struct shstmt *top;
};
static void whine(const char *a, const char *b) { shim_errs++; fprintf(stderr, "shim: %s: %s\n", a, b); }

struct hrole { size_t parent; int haspar; size_t *stmts; size_t stmtsz; int sink, start; };
struct sqlbox_role_hier { struct hrole *r; size_t sz; };

struct sqlbox_role_hier *
sqlbox_role_hier_alloc(size_t n)
{
	struct sqlbox_role_hier *h = calloc(1, sizeof(*h));
	h->sz = n; h->r = calloc(n + 1, sizeof(*h->r));
	return h;
}
void
sqlbox_role_hier_free(struct sqlbox_role_hier *h)
{
	size_t i;
	if (h == NULL) return;
	for (i = 0; i < h->sz; i++) free(h->r[i].stmts);
	free(h->r); free(h);
}
int
sqlbox_role_hier_child(struct sqlbox_role_hier *h, size_t parent, size_t child)
{
	if (parent >= h->sz || child >= h->sz || parent == child || h->r[child].haspar) { whine("role_hier_child", "bad"); return 0; }
	h->r[child].haspar = 1; h->r[child].parent = parent;
	return 1;
}
int sqlbox_role_hier_sink(struct sqlbox_role_hier *h, size_t r) { if (r >= h->sz) return 0; h->r[r].sink = 1; return 1; }
int sqlbox_role_hier_start(struct sqlbox_role_hier *h, size_t r) { if (r >= h->sz) return 0; h->r[r].start = 1; return 1; }
int sqlbox_role_hier_src(struct sqlbox_role_hier *h, size_t r, size_t s) { return r < h->sz && s == 0; }
int
sqlbox_role_hier_stmt(struct sqlbox_role_hier *h, size_t r, size_t s)
{
	if (r >= h->sz) { whine("role_hier_stmt", "bad role"); return 0; }
	h->r[r].stmts = realloc(h->r[r].stmts, (h->r[r].stmtsz + 1) * sizeof(size_t));
	h->r[r].stmts[h->r[r].stmtsz++] = s;
	return 1;
}
int
sqlbox_role_hier_gen(const struct sqlbox_role_hier *h, struct sqlbox_roles *out, size_t def)
{
	size_t i, j, k, n;
	out->roles = calloc(h->sz, sizeof(*out->roles));
	out->rolesz = h->sz; out->defrole = def;
	for (i = 0; i < h->sz; i++) {
		struct sqlbox_role *r = &out->roles[i];
		r->roles = calloc(h->sz * 2 + 2, sizeof(size_t));
		for (j = 0, n = 0; j < h->sz; j++) n += h->r[j].stmtsz;
		r->stmts = calloc(n + 1, sizeof(size_t));
		/* Own and inherited statements; ancestors may be entered. */
		for (j = i, k = 0;; j = h->r[j].parent) {
			if (k++ > h->sz) { whine("role_hier_gen", "loop"); return 0; }
			for (n = 0; n < h->r[j].stmtsz; n++) r->stmts[r->stmtsz++] = h->r[j].stmts[n];
			if (j != i) r->roles[r->rolesz++] = j;
			if (!h->r[j].haspar) break;
		}
		for (j = 0; j < h->sz; j++)
			if (j != i && (h->r[j].sink || h->r[i].start)) r->roles[r->rolesz++] = j;
	}
	return 1;
}
void
sqlbox_role_hier_gen_free(struct sqlbox_roles *r)
{
	size_t i;
	if (r == NULL) return;
	for (i = 0; i < r->rolesz; i++) { free(r->roles[i].roles); free(r->roles[i].stmts); }
	free(r->roles); r->roles = NULL; r->rolesz = 0;
}

struct sqlbox *
sqlbox_alloc(struct sqlbox_cfg *cfg)
{
	struct sqlbox *b = calloc(1, sizeof(*b));
	size_t i;
	b->stmtsz = cfg->stmts.stmtsz;
	b->stmts = calloc(b->stmtsz + 1, sizeof(*b->stmts));
	for (i = 0; i < b->stmtsz; i++) b->stmts[i].stmt = strdup(cfg->stmts.stmts[i].stmt);
	b->rolesz = cfg->roles.rolesz; b->role = cfg->roles.defrole;
	if (b->rolesz) b->roles = calloc(b->rolesz, sizeof(*b->roles));
	for (i = 0; i < b->rolesz; i++) {
		struct sqlbox_role *s = &cfg->roles.roles[i], *d = &b->roles[i];
		d->rolesz = s->rolesz; d->roles = malloc((s->rolesz + 1) * sizeof(size_t)); memcpy(d->roles, s->roles, s->rolesz * sizeof(size_t));
		d->stmtsz = s->stmtsz; d->stmts = malloc((s->stmtsz + 1) * sizeof(size_t)); memcpy(d->stmts, s->stmts, s->stmtsz * sizeof(size_t));
	}
	return b;
}
static void
pop(struct sqlbox *b)
{
	struct shstmt *s = b->top;
	b->top = s->prev;
	sqlite3_finalize(s->s);
	free(s->set.ps); free(s);
}
void
sqlbox_free(struct sqlbox *b)
{
	size_t i;
	if (b == NULL) return;
	if (b->top != NULL) whine("sqlbox_free", "open statement");
	while (b->top != NULL) pop(b);
	for (i = 0; i < b->stmtsz; i++) free(b->stmts[i].stmt);
	for (i = 0; i < b->rolesz; i++) { free(b->roles[i].roles); free(b->roles[i].stmts); }
	free(b->roles); free(b->stmts);
	if (b->db != NULL && b->db != shim_db) sqlite3_close(b->db);
	free(b);
}
int
sqlbox_open_async(struct sqlbox *b, size_t src)
{
	char *e = NULL;
	if (b->db != NULL) { whine("open", "twice"); return 0; }
	if (shim_db == NULL) {
		if (sqlite3_open(":memory:", &shim_db) != SQLITE_OK) return 0;
		sqlite3_exec(shim_db, "PRAGMA foreign_keys=ON", NULL, NULL, NULL);
		if (shim_schema != NULL && sqlite3_exec(shim_db, shim_schema, NULL, NULL, &e) != SQLITE_OK) { whine("schema", e); return 0; }
	}
	b->db = shim_db;
	return 1;
}
static int
allowed(const struct sqlbox *b, size_t stmt)
{
	size_t i;
	if (b->rolesz == 0) return 1;
	for (i = 0; i < b->roles[b->role].stmtsz; i++)
		if (b->roles[b->role].stmts[i] == stmt) return 1;
	return 0;
}
static sqlite3_stmt *
prep(struct sqlbox *b, size_t idx, size_t n, const struct sqlbox_parm *p)
{
	sqlite3_stmt *s = NULL;
	size_t i;
	int c = SQLITE_OK;
	if (idx >= b->stmtsz) { whine("prepare", "no such statement"); return NULL; }
	if (!allowed(b, idx)) { fprintf(stderr, "shim: role denied statement\n"); return NULL; }
	if (sqlite3_prepare_v2(b->db, b->stmts[idx].stmt, -1, &s, NULL) != SQLITE_OK) { whine(b->stmts[idx].stmt, sqlite3_errmsg(b->db)); return NULL; }
	if ((int)n != sqlite3_bind_parameter_count(s)) { whine(b->stmts[idx].stmt, "wrong number of parameters"); sqlite3_finalize(s); return NULL; }
	if (n > 0 && p == NULL) { whine("prepare", "no parameters"); sqlite3_finalize(s); return NULL; }
	for (i = 0; i < n && c == SQLITE_OK; i++)
		switch (p[i].type) {
		case SQLBOX_PARM_INT: c = sqlite3_bind_int64(s, i + 1, p[i].iparm); break;
		case SQLBOX_PARM_FLOAT: c = sqlite3_bind_double(s, i + 1, p[i].fparm); break;
		case SQLBOX_PARM_STRING:
			if (p[i].sz > 0 && p[i].sparm[p[i].sz - 1] != '\0') { whine("prepare", "string not terminated"); }
			c = p[i].sparm == NULL ? sqlite3_bind_null(s, i + 1) : sqlite3_bind_text(s, i + 1, p[i].sparm, -1, SQLITE_TRANSIENT); break;
		case SQLBOX_PARM_BLOB:
			c = p[i].sz == 0 ? sqlite3_bind_zeroblob(s, i + 1, 0) : sqlite3_bind_blob(s, i + 1, p[i].bparm, p[i].sz, SQLITE_TRANSIENT); break;
		case SQLBOX_PARM_NULL: c = sqlite3_bind_null(s, i + 1); break;
		default: whine("prepare", "bad parameter type"); sqlite3_finalize(s); return NULL;
		}
	if (c != SQLITE_OK) { whine("bind", sqlite3_errmsg(b->db)); sqlite3_finalize(s); return NULL; }
	return s;
}
int
sqlbox_prepare_bind_async(struct sqlbox *b, size_t src, size_t idx, size_t n, const struct sqlbox_parm *p, unsigned long flags)
{
	struct shstmt *s;
	sqlite3_stmt *st = prep(b, idx, n, p);
	if (st == NULL) return 0;
	s = calloc(1, sizeof(*s)); s->s = st; s->idx = idx; s->prev = b->top; s->multi = (flags & SQLBOX_STMT_MULTI) != 0; b->top = s;
	return 1;
}
const struct sqlbox_parmset *
sqlbox_step(struct sqlbox *b, size_t id)
{
	struct shstmt *s = b->top;
	size_t i, n;
	int c;
	if (s == NULL) { whine("step", "no statement"); return NULL; }
	if (s->done) { whine("step", "after the last row"); return NULL; }
	c = sqlite3_step(s->s);
	/* The previous row's storage does not survive a step. */
	free(s->set.ps); s->set.ps = NULL; s->set.psz = 0; s->set.code = SQLBOX_CODE_OK;
	if (c == SQLITE_DONE) { s->done = 1; return &s->set; }
	if (c != SQLITE_ROW) { whine("step", sqlite3_errmsg(b->db)); return NULL; }
	n = sqlite3_column_count(s->s);
	s->set.ps = calloc(n, sizeof(*s->set.ps)); s->set.psz = n;
	for (i = 0; i < n; i++) {
		struct sqlbox_parm *p = &s->set.ps[i];
		switch (sqlite3_column_type(s->s, i)) {
		case SQLITE_INTEGER: p->type = SQLBOX_PARM_INT; p->iparm = sqlite3_column_int64(s->s, i); break;
		case SQLITE_FLOAT: p->type = SQLBOX_PARM_FLOAT; p->fparm = sqlite3_column_double(s->s, i); break;
		case SQLITE_TEXT: p->type = SQLBOX_PARM_STRING; p->sparm = (const char *)sqlite3_column_text(s->s, i); p->sz = sqlite3_column_bytes(s->s, i) + 1; break;
		case SQLITE_BLOB: p->type = SQLBOX_PARM_BLOB; p->bparm = sqlite3_column_blob(s->s, i); p->sz = sqlite3_column_bytes(s->s, i); break;
		default: p->type = SQLBOX_PARM_NULL; break;
		}
	}
	return &s->set;
}
int
sqlbox_finalise(struct sqlbox *b, size_t id)
{
	if (b->top == NULL) { whine("finalise", "no statement"); return 0; }
	pop(b);
	return 1;
}
enum sqlbox_code
sqlbox_exec(struct sqlbox *b, size_t src, size_t idx, size_t n, const struct sqlbox_parm *p, unsigned long flags)
{
	sqlite3_stmt *s = prep(b, idx, n, p);
	int c;
	if (s == NULL) return SQLBOX_CODE_ERROR;
	do c = sqlite3_step(s); while (c == SQLITE_ROW);
	if (c == SQLITE_DONE) { sqlite3_finalize(s); return SQLBOX_CODE_OK; }
	c &= 0xff;
	if (c != SQLITE_CONSTRAINT) whine(b->stmts[idx].stmt, sqlite3_errmsg(b->db));
	sqlite3_finalize(s);
	return c == SQLITE_CONSTRAINT && (flags & SQLBOX_STMT_CONSTRAINT) ? SQLBOX_CODE_CONSTRAINT : SQLBOX_CODE_ERROR;
}
int sqlbox_lastid(struct sqlbox *b, size_t src, int64_t *id) { *id = sqlite3_last_insert_rowid(b->db); return 1; }
int sqlbox_msg_set_dat(struct sqlbox *b, const void *p, size_t sz) { return 1; }
int
sqlbox_role(struct sqlbox *b, size_t r)
{
	size_t i;
	if (b->rolesz == 0 || r >= b->rolesz) return 0;
	if (r == b->role) return 1;
	for (i = 0; i < b->roles[b->role].rolesz; i++)
		if (b->roles[b->role].roles[i] == r) { b->role = r; return 1; }
	return 0;
}
static int
trans(struct sqlbox *b, size_t id, const char *how)
{
	if (id == 0 || b->trans) return 0;
	if (sqlite3_exec(b->db, how, NULL, NULL, NULL) != SQLITE_OK) return 0;
	b->trans = 1; b->transid = id;
	return 1;
}
static int
untrans(struct sqlbox *b, size_t id, const char *how)
{
	if (!b->trans || b->transid != id) return 0;
	if (sqlite3_exec(b->db, how, NULL, NULL, NULL) != SQLITE_OK) return 0;
	b->trans = 0;
	return 1;
}
int shim_lastmode;
int sqlbox_trans_immediate(struct sqlbox *b, size_t s, size_t id) { shim_lastmode = 1; return trans(b, id, "BEGIN IMMEDIATE"); }
int sqlbox_trans_deferred(struct sqlbox *b, size_t s, size_t id) { shim_lastmode = 0; return trans(b, id, "BEGIN DEFERRED"); }
int sqlbox_trans_exclusive(struct sqlbox *b, size_t s, size_t id) { shim_lastmode = -1; return trans(b, id, "BEGIN EXCLUSIVE"); }
int sqlbox_trans_commit(struct sqlbox *b, size_t s, size_t id) { return untrans(b, id, "COMMIT"); }
int sqlbox_trans_rollback(struct sqlbox *b, size_t s, size_t id) { return untrans(b, id, "ROLLBACK"); }

int
sqlbox_parm_int(const struct sqlbox_parm *p, int64_t *v)
{
	char *e;
	switch (p->type) {
	case SQLBOX_PARM_INT: *v = p->iparm; return 0;
	case SQLBOX_PARM_FLOAT: *v = (int64_t)p->fparm; return 1;
	case SQLBOX_PARM_STRING: errno = 0; *v = strtoll(p->sparm, &e, 10); return errno || e == p->sparm || *e != '\0' ? -1 : 1;
	default: return -1;
	}
}
int
sqlbox_parm_float(const struct sqlbox_parm *p, double *v)
{
	char *e;
	switch (p->type) {
	case SQLBOX_PARM_FLOAT: *v = p->fparm; return 0;
	case SQLBOX_PARM_INT: *v = (double)p->iparm; return 1;
	case SQLBOX_PARM_STRING: errno = 0; *v = strtod(p->sparm, &e); return errno || e == p->sparm || *e != '\0' ? -1 : 1;
	default: return -1;
	}
}
int
sqlbox_parm_string_alloc(const struct sqlbox_parm *p, char **out, size_t *sz)
{
	int c = 1;
	switch (p->type) {
	case SQLBOX_PARM_STRING: *out = strdup(p->sparm); c = 0; break;
	case SQLBOX_PARM_INT: if (asprintf(out, "%" PRId64, p->iparm) < 0) return -1; break;
	case SQLBOX_PARM_FLOAT: if (asprintf(out, "%g", p->fparm) < 0) return -1; break;
	case SQLBOX_PARM_BLOB: *out = malloc(p->sz + 1); memcpy(*out, p->bparm, p->sz); (*out)[p->sz] = '\0'; break;
	default: return -1;
	}
	if (sz != NULL) *sz = strlen(*out);
	return c;
}
int
sqlbox_parm_blob_alloc(const struct sqlbox_parm *p, void **out, size_t *sz)
{
	switch (p->type) {
	case SQLBOX_PARM_BLOB: *out = malloc(p->sz ? p->sz : 1); if (p->sz) memcpy(*out, p->bparm, p->sz); *sz = p->sz; return 0;
	case SQLBOX_PARM_STRING: *sz = p->sz - 1; *out = malloc(p->sz); memcpy(*out, p->sparm, p->sz); return 1;
	default: return -1;
	}
}

/* ------------------------------------------------------------- crypt */
static unsigned int nhash;
static uint64_t fnv(const char *a, const char *b)
{
	uint64_t h = 1469598103934665603ULL;
	for (; *a; a++) h = (h ^ (unsigned char)*a) * 1099511628211ULL;
	h = (h ^ 255) * 1099511628211ULL;
	for (; *b; b++) h = (h ^ (unsigned char)*b) * 1099511628211ULL;
	return h;
}
int
crypt_newhash(const char *pw, const char *pref, char *buf, size_t sz)
{
	char salt[16];
	snprintf(salt, sizeof(salt), "%06u", ++nhash);
	if (strncmp(pref, "blowfish", 8) != 0) { whine("crypt_newhash", "preference"); return -1; }
	if (sz < 61) { whine("crypt_newhash", "buffer too small"); return -1; }
	if ((size_t)snprintf(buf, sz, "$2b$08$%s$%016" PRIx64 "%028d", salt, fnv(salt, pw), 0) >= sz) return -1;
	return 0;
}
int
crypt_checkpass(const char *pw, const char *hash)
{
	char salt[16], want[17], got[17];
	if (pw == NULL || hash == NULL) return -1;
	if (sscanf(hash, "$2b$08$%6[0-9]$%16[0-9a-f]", salt, want) != 2 || strlen(hash) < 40) { errno = EINVAL; return -1; }
	snprintf(got, sizeof(got), "%016" PRIx64, fnv(salt, pw));
	return strcmp(got, want) == 0 ? 0 : -1;
}

/* -------------------------------------------------------------- kcgi */
int
kvalid_string(struct kpair *p)
{
	if (memchr(p->val, '\0', p->valsz) != NULL) return 0;
	p->type = KPAIR_STRING; p->parsed.s = p->val;
	return 1;
}
int kvalid_stringne(struct kpair *p) { return kvalid_string(p) && p->valsz > 0; }
int
kvalid_int(struct kpair *p)
{
	char *e; long long v;
	const char *s = p->val;
	if (!kvalid_stringne(p)) return 0;
	while (isspace((unsigned char)*s)) s++;
	errno = 0; v = strtoll(s, &e, 10);
	if (e == s || errno == ERANGE) return 0;
	while (isspace((unsigned char)*e)) e++;
	if (*e != '\0') return 0;
	p->type = KPAIR_INTEGER; p->parsed.i = v;
	return 1;
}
int
kvalid_bit(struct kpair *p)
{
	return kvalid_int(p) && p->parsed.i >= 0 && p->parsed.i <= 64;
}
int
kvalid_double(struct kpair *p)
{
	char *e; double v;
	const char *s = p->val;
	if (!kvalid_stringne(p)) return 0;
	errno = 0; v = strtod(s, &e);
	if (e == s || errno == ERANGE) return 0;
	while (isspace((unsigned char)*e)) e++;
	if (*e != '\0') return 0;
	p->type = KPAIR_DOUBLE; p->parsed.d = v;
	return 1;
}
int
kvalid_date(struct kpair *p)
{
	struct tm tm; int y, m, d, n = 0; time_t t;
	if (!kvalid_stringne(p)) return 0;
	if (p->valsz != 10 || sscanf(p->val, "%4d-%2d-%2d%n", &y, &m, &d, &n) != 3 || n != 10) return 0;
	memset(&tm, 0, sizeof(tm)); tm.tm_year = y - 1900; tm.tm_mon = m - 1; tm.tm_mday = d;
	t = timegm(&tm);
	if (tm.tm_year != y - 1900 || tm.tm_mon != m - 1 || tm.tm_mday != d) return 0;
	p->type = KPAIR_INTEGER; p->parsed.i = t;
	return 1;
}
int
kvalid_email(struct kpair *p)
{
	const char *at;
	if (!kvalid_stringne(p)) return 0;
	if (p->valsz < 5 || p->valsz > 254) return 0;
	at = strchr(p->val, '@');
	if (at == NULL || at == p->val || at[1] == '\0' || strchr(at + 1, '@') != NULL || strchr(at, '.') == NULL) return 0;
	return 1;
}

/* ---------------------------------------------------------- kcgijson */
static void
jstr(FILE *f, const char *s)
{
	putc('"', f);
	for (; s != NULL && *s; s++) {
		unsigned char c = *s;
		if (c == '"' || c == '\\' || c == '/') fprintf(f, "\\%c", c);
		else if (c == '\n') fputs("\\n", f);
		else if (c == '\t') fputs("\\t", f);
		else if (c == '\r') fputs("\\r", f);
		else if (c == '\b') fputs("\\b", f);
		else if (c == '\f') fputs("\\f", f);
		else if (c < 32) fprintf(f, "\\u%04x", c);
		else putc(c, f);
	}
	putc('"', f);
}
void kjson_open(struct kjsonreq *r, FILE *f) { memset(r, 0, sizeof(*r)); r->f = f; }
int kjson_close(struct kjsonreq *r) { return r->depth; }
static void
jkey(struct kjsonreq *r, const char *key)
{
	if (r->depth >= 60) abort();
	if (r->st[r->depth].n++) putc(',', r->f);
	if (r->st[r->depth].type == 1 && key == NULL) { whine("kjson", "no key in an object"); }
	if (r->st[r->depth].type == 2 && key != NULL) { whine("kjson", "key in an array"); }
	if (key != NULL) { jstr(r->f, key); putc(':', r->f); }
}
static void jpush(struct kjsonreq *r, int t) { r->depth++; r->st[r->depth].type = t; r->st[r->depth].n = 0; putc(t == 1 ? '{' : '[', r->f); }
static void jpop(struct kjsonreq *r, int t)
{
	if (r->depth == 0 || r->st[r->depth].type != t) { whine("kjson", "bad close"); return; }
	r->depth--; putc(t == 1 ? '}' : ']', r->f);
}
enum kcgi_err kjson_array_open(struct kjsonreq *r) { jkey(r, NULL); jpush(r, 2); return KCGI_OK; }
enum kcgi_err kjson_arrayp_open(struct kjsonreq *r, const char *k) { jkey(r, k); jpush(r, 2); return KCGI_OK; }
enum kcgi_err kjson_array_close(struct kjsonreq *r) { jpop(r, 2); return KCGI_OK; }
enum kcgi_err kjson_obj_open(struct kjsonreq *r) { jkey(r, NULL); jpush(r, 1); return KCGI_OK; }
enum kcgi_err kjson_objp_open(struct kjsonreq *r, const char *k) { jkey(r, k); jpush(r, 1); return KCGI_OK; }
enum kcgi_err kjson_obj_close(struct kjsonreq *r) { jpop(r, 1); return KCGI_OK; }
enum kcgi_err kjson_putintp(struct kjsonreq *r, const char *k, int64_t v) { jkey(r, k); fprintf(r->f, "%" PRId64, v); return KCGI_OK; }
enum kcgi_err kjson_putintstrp(struct kjsonreq *r, const char *k, int64_t v) { jkey(r, k); fprintf(r->f, "\"%" PRId64 "\"", v); return KCGI_OK; }
enum kcgi_err kjson_putdoublep(struct kjsonreq *r, const char *k, double v)
{
	jkey(r, k);
	if (isnan(v) || isinf(v)) fputs("null", r->f); else fprintf(r->f, "%.17g", v);
	return KCGI_OK;
}
enum kcgi_err kjson_putstringp(struct kjsonreq *r, const char *k, const char *v) { jkey(r, k); jstr(r->f, v); return KCGI_OK; }
enum kcgi_err kjson_putnullp(struct kjsonreq *r, const char *k) { jkey(r, k); fputs("null", r->f); return KCGI_OK; }
enum kcgi_err kjson_putboolp(struct kjsonreq *r, const char *k, int v) { jkey(r, k); fputs(v ? "true" : "false", r->f); return KCGI_OK; }
