/*
 * Coverage-guided target: the input is one to three parts separated by
 * zero bytes, the first being a configuration.  One part: all outputs.
 * Two: difference of two configurations.  Three (the second empty):
 * translations read against the configuration.
 */
#include <sys/queue.h>
#include <inttypes.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "ort.h"
#include "ort-lang-c.h"
#include "ort-lang-javascript.h"
#include "ort-lang-json.h"
#include "ort-lang-nodejs.h"
#include "ort-lang-rust.h"
#include "ort-lang-sql.h"
#include "ort-lang-xliff.h"

static FILE *nul;

static struct config *
rd(const uint8_t *d, size_t sz)
{
	struct config	*c;
	FILE		*f;
	int		 rc;

	if (sz == 0 || (f = fmemopen((void *)d, sz, "r")) == NULL)
		return NULL;
	if ((c = ort_config_alloc()) == NULL)
		abort();
	rc = ort_parse_file(c, f, "a.ort") && ort_parse_close(c);
	fclose(f);
	if (!rc && TAILQ_EMPTY(&c->mq)) {
		fprintf(stderr, "ortfuzz: refused without a diagnostic\n");
		abort();
	}
	ort_write_msg_file(nul, &c->mq);
	if (!rc) {
		ort_config_free(c);
		return NULL;
	}
	return c;
}

int
LLVMFuzzerTestOneInput(const uint8_t *d, size_t sz)
{
	const uint8_t	*p, *q;
	struct config	*a, *b;
	struct msgq	 mq = TAILQ_HEAD_INITIALIZER(mq);

	if (nul == NULL && (nul = fopen("/dev/null", "w")) == NULL)
		abort();
	rewind(nul);
	p = memchr(d, 0, sz);
	if ((a = rd(d, p == NULL ? sz : (size_t)(p - d))) == NULL)
		return 0;
	if (p == NULL) {
		struct ort_lang_c	 c;
		struct ort_lang_js	 js;
		struct ort_lang_json	 jo;
		struct ort_lang_nodejs	 no;
		struct ort_lang_rust	 ru;
		struct ort_lang_sql	 sq;
		struct ort_lang_xliff	 xl;
		struct auditq		*aq;
		const struct role	*r;

		memset(&c, 0, sizeof(c)); memset(&js, 0, sizeof(js)); memset(&jo, 0, sizeof(jo));
		memset(&no, 0, sizeof(no)); memset(&ru, 0, sizeof(ru)); memset(&sq, 0, sizeof(sq)); memset(&xl, 0, sizeof(xl));
		ort_write_file(nul, a);
		c.guard = "DB_H"; c.header = "db.h"; c.ext_jsmn = "/* jsmn */\n";
		c.flags = ORT_LANG_C_CORE | ORT_LANG_C_JSON_KCGI | ORT_LANG_C_JSON_JSMN | ORT_LANG_C_VALID_KCGI | ORT_LANG_C_DB_SQLBOX;
		c.includes = ORT_LANG_C_JSON_KCGI | ORT_LANG_C_JSON_JSMN | ORT_LANG_C_VALID_KCGI | ORT_LANG_C_DB_SQLBOX;
		if (sz % 2) c.flags |= ORT_LANG_C_SAFE_TYPES;
		ort_lang_c_header(&c, a, nul);
		ort_lang_c_source(&c, a, nul);
		ort_lang_c_manpage(&c, a, nul);
		js.ext_privMethods = "/* priv */\n"; js.ns = "ort";
		ort_lang_javascript(a, &js, nul);
		ort_lang_json(&jo, a, nul);
		no.flags = ORT_LANG_NODEJS_VALID | ORT_LANG_NODEJS_CORE | ORT_LANG_NODEJS_DB;
		ort_lang_nodejs(&no, a, nul);
		ort_lang_rust(&ru, a, nul);
		ort_lang_sql(&sq, a, nul);
		ort_lang_xliff_extract(&xl, a, nul, &mq);
		TAILQ_FOREACH(r, &a->arq, allentries) {
			if ((aq = ort_audit(r, a)) == NULL)
				abort();
			ort_auditq_free(aq);
		}
	} else if (p + 1 < d + sz && p[1] != 0) {
		if ((b = rd(p + 1, (size_t)(d + sz - p - 1))) != NULL) {
			struct diffq		*dq;
			struct ort_lang_sql	 sq;

			memset(&sq, 0, sizeof(sq));
			if ((dq = ort_diff(a, b)) == NULL)
				abort();
			{ const char *an = "a.ort", *bn = "b.ort"; ort_write_diff_file(nul, dq, &an, 1, &bn, 1); }
			ort_lang_diff_sql(&sq, dq, 0, nul, &mq);
			ort_lang_diff_sql(&sq, dq, 1, nul, &mq);
			ort_diffq_free(dq);
			ort_config_free(b);
		}
	} else if (p + 2 < d + sz) {
		FILE			*f[1];
		const char		*n = "a.xliff";
		struct ort_lang_xliff	 xl;
		int			 k;

		for (k = 0; k < 2; k++) {
			if ((f[0] = fmemopen((void *)(p + 2), (size_t)(d + sz - p - 2), "r")) == NULL)
				abort();
			memset(&xl, 0, sizeof(xl)); xl.in = f; xl.fnames = &n; xl.insz = 1;
			if (k == 0)
				ort_lang_xliff_update(&xl, a, nul, &mq);
			else if (ort_lang_xliff_join(&xl, a, nul, &mq))
				ort_write_file(nul, a);
			fclose(f[0]);
		}
	}
	ort_write_msg_file(nul, &mq);
	ort_msgq_free(&mq);
	ort_config_free(a);
	return 0;
}
