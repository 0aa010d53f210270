From 2d499446aff80b4806a700c300f26fd4255087bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:53 +0000
Subject: [PATCH 001/108] fix: write date and decimal values so that they parse
 back unchanged

---
 writer.c | 54 +++++++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 49 insertions(+), 5 deletions(-)

diff --git a/writer.c b/writer.c
index 7c3b094..8de19e3 100644
--- a/writer.c
+++ b/writer.c
@@ -27,6 +27,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <time.h>
 
 #include "ort.h"
 
@@ -158,6 +159,45 @@ wprint(struct writer *w, const char *fmt, ...)
 	return len >= 0;
 }
 
+/*
+ * Write a decimal number so that it's exactly the same when parsed.
+ * The ort(5) decimal format has no exponent.
+ * Returns zero on failure (memory), non-zero otherwise.
+ */
+static int
+parse_write_real(struct writer *w, double v)
+{
+	char	 buf[2048];
+	int	 prec;
+
+	snprintf(buf, sizeof(buf), "%g", v);
+	for (prec = 1; prec < 1100; prec++) {
+		if (strchr(buf, 'e') == NULL && strtod(buf, NULL) == v)
+			break;
+		snprintf(buf, sizeof(buf), "%.*f", prec, v);
+	}
+
+	return wputs(w, buf);
+}
+
+/*
+ * Write a date so that it's exactly the same when parsed.
+ * Returns zero on failure (memory), non-zero otherwise.
+ */
+static int
+parse_write_date(struct writer *w, int64_t v)
+{
+	struct tm	*tm;
+	time_t		 t = (time_t)v;
+
+	if ((tm = gmtime(&t)) == NULL)
+		return 0;
+
+	return wprint(w, "%04lld-%02d-%02d", 
+		(long long)tm->tm_year + 1900, 
+		tm->tm_mon + 1, tm->tm_mday);
+}
+
 /*
  * Write a field/enumeration/whatever comment.
  * Returns zero on failure (memory), non-zero otherwise.
@@ -246,15 +286,18 @@ parse_write_field(struct writer *w, const struct field *p)
 		switch (p->type) {
 		case FTYPE_BIT:
 		case FTYPE_BITFIELD:
-		case FTYPE_DATE:
 		case FTYPE_EPOCH:
 		case FTYPE_INT:
 			rc = wprint(w, " default %" PRId64,
 				p->def.integer);
 			break;
+		case FTYPE_DATE:
+			rc = wputs(w, " default ") &&
+				parse_write_date(w, p->def.integer);
+			break;
 		case FTYPE_REAL:
-			rc = wprint(w, " default %g",
-				p->def.decimal);
+			rc = wputs(w, " default ") &&
+				parse_write_real(w, p->def.decimal);
 			break;
 		case FTYPE_EMAIL:
 		case FTYPE_TEXT:
@@ -289,8 +332,9 @@ parse_write_field(struct writer *w, const struct field *p)
 				return 0;
 			break;
 		case FTYPE_REAL:
-			if (!wprint(w, " limit %s %g",
-			    vtypes[fv->type], fv->d.value.decimal))
+			if (!wprint(w, " limit %s ", vtypes[fv->type]))
+				return 0;
+			if (!parse_write_real(w, fv->d.value.decimal))
 				return 0;
 			break;
 		case FTYPE_BLOB:
-- 
2.43.0


From 64c91d247e595adda033bd33f34a85d012393687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:11 +0000
Subject: [PATCH 002/108] fix: date defaults do not depend upon the time zone
 nor take impossible months and days

---
 parser_field.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/parser_field.c b/parser_field.c
index 003c690..81a9a41 100644
--- a/parser_field.c
+++ b/parser_field.c
@@ -326,7 +326,8 @@ parse_field_info(struct parse *p, struct field *fd)
 				if (parse_next(p) != TOK_INTEGER) {
 					parse_errx(p, "expected year (integer)");
 					break;
-				} else if (p->last.integer > INT_MAX) {
+				} else if (p->last.integer > INT_MAX ||
+				    p->last.integer < INT_MIN + 1900) {
 					parse_errx(p, "invalid year");
 					break;
 				}
@@ -337,7 +338,7 @@ parse_field_info(struct parse *p, struct field *fd)
 				} else if (p->last.integer >= 0) {
 					parse_errx(p, "invalid month");
 					break;
-				} else if (p->last.integer < INT_MIN) {
+				} else if (p->last.integer < -12) {
 					parse_errx(p, "invalid month");
 					break;
 				}
@@ -348,14 +349,13 @@ parse_field_info(struct parse *p, struct field *fd)
 				} else if (p->last.integer >= 0) {
 					parse_errx(p, "invalid day");
 					break;
-				} else if (p->last.integer < INT_MIN) {
+				} else if (p->last.integer < -31) {
 					parse_errx(p, "invalid day");
 					break;
 				}
 				tm.tm_mday = (int)-p->last.integer;
-				tm.tm_isdst = -1;
 				fd->flags |= FIELD_HASDEF;
-				fd->def.integer = mktime(&tm); 
+				fd->def.integer = timegm(&tm);
 				break;
 			case FTYPE_BIT:
 			case FTYPE_BITFIELD:
-- 
2.43.0


From 4b3f32c12d31618cbfa38a792e9ff298962836b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:11 +0000
Subject: [PATCH 003/108] fix: reject limits on bitfields as documented instead
 of aborting

---
 parser_field.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser_field.c b/parser_field.c
index 81a9a41..3b84d95 100644
--- a/parser_field.c
+++ b/parser_field.c
@@ -95,6 +95,9 @@ parse_validate(struct parse *p, struct field *fd)
 		 */
 		parse_errx(p, "no validation on enums");
 		return;
+	} else if (fd->type == FTYPE_BITFIELD) {
+		parse_errx(p, "no validation on bitfields");
+		return;
 	}
 
 	if (parse_next(p) != TOK_IDENT) {
@@ -122,7 +125,6 @@ parse_validate(struct parse *p, struct field *fd)
 
 	switch (fd->type) {
 	case FTYPE_BIT:
-	case FTYPE_BITFIELD:
 	case FTYPE_DATE:
 	case FTYPE_EPOCH:
 	case FTYPE_INT:
-- 
2.43.0


From ac0ee4623765e12cc0a47946c169990bd2e8bc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:11 +0000
Subject: [PATCH 004/108] fix: reject configurations ending in the midst of an
 object

---
 parser.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parser.c b/parser.c
index 11cd1d5..13ebd5e 100644
--- a/parser.c
+++ b/parser.c
@@ -747,6 +747,13 @@ parse_root(struct parse *p)
 			parse_bitfield(p);
 		else
 			parse_errx(p, "unknown top-level type");
+
+		/* We must not have ended within an object. */
+
+		if (p->lasttype == TOK_EOF) {
+			p->lasttype = TOK_ERR;
+			parse_errx(p, "unexpected end of file");
+		}
 	}
 
 	return 1;
-- 
2.43.0


From 5d0338fc2d16c86ef4a3837dc32df080116a3c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:11 +0000
Subject: [PATCH 005/108] fix: do not reject decimals due to a stale error code

---
 parser.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser.c b/parser.c
index 13ebd5e..1a056cd 100644
--- a/parser.c
+++ b/parser.c
@@ -550,6 +550,7 @@ again:
 		if ( ! buf_push(p, '\0'))
 			return TOK_ERR;
 		if (hasdot) {
+			errno = 0;
 			p->last.decimal = strtod(p->buf, &epp);
 			if (epp == p->buf || ERANGE == errno)
 				return(parse_errx(p, 
-- 
2.43.0


From c94ea274902558e65192ebf061d1e743d8e6221b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:30 +0000
Subject: [PATCH 006/108] fix: a minus sign at the end of file is not an end of
 file

---
 parser.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/parser.c b/parser.c
index 1a056cd..4b4a97a 100644
--- a/parser.c
+++ b/parser.c
@@ -460,7 +460,7 @@ again:
 
 	if ('-' == c) {
 		c = parse_nextchar(p);
-		if (parse_check_error_eof(p))
+		if (parse_check_error(p))
 			return(parse_read_err(p));
 		if ( ! isdigit(c))
 			return(parse_errx(p, "expected digit"));
@@ -751,10 +751,8 @@ parse_root(struct parse *p)
 
 		/* We must not have ended within an object. */
 
-		if (p->lasttype == TOK_EOF) {
-			p->lasttype = TOK_ERR;
+		if (p->lasttype == TOK_EOF)
 			parse_errx(p, "unexpected end of file");
-		}
 	}
 
 	return 1;
-- 
2.43.0


From 0c4f125f83f693f847cf95325f420e5ef881995a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:30 +0000
Subject: [PATCH 007/108] fix: retain white-space within labels when formatting

---
 writer.c | 19 +------------------
 1 file changed, 1 insertion(+), 18 deletions(-)

diff --git a/writer.c b/writer.c
index 8de19e3..e45d098 100644
--- a/writer.c
+++ b/writer.c
@@ -654,7 +654,6 @@ static int
 parse_write_label(struct writer *w, const struct config *cfg,
 	const struct label *p, size_t pos)
 {
-	const char	*cp = p->label;
 
 	if (pos && !wprint(w, "\n\t\tjslabel"))
 		return 0;
@@ -662,23 +661,7 @@ parse_write_label(struct writer *w, const struct config *cfg,
 		return 0;
 	if (p->lang && !wprint(w, ".%s", cfg->langs[p->lang]))
 		return 0;
-	if (!wprint(w, " \""))
-		return 0;
-
-	while (*cp != '\0') {
-		if (!isspace((unsigned char)*cp)) {
-			if (!wputc(w, *cp))
-				return 0;
-			cp++;
-			continue;
-		}
-		if (!wputc(w, ' '))
-			return 0;
-		while (isspace((unsigned char)*cp))
-			cp++;
-	}
-
-	return wputc(w, '"');
+	return wprint(w, " \"%s\"", p->label);
 }
 
 /*
-- 
2.43.0


From 95b5862a6f23f785f0de0aa4d2f365bf034c1852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:30 +0000
Subject: [PATCH 008/108] fix: keep a copy of the operation name in role
 assignments

---
 parser_struct.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/parser_struct.c b/parser_struct.c
index 4457f81..0571229 100644
--- a/parser_struct.c
+++ b/parser_struct.c
@@ -1265,9 +1265,10 @@ static void
 parse_struct_roles(struct parse *p, struct strct *s)
 {
 	enum rolemapt	  type;
-	const char	 *name;
+	char		 *name;
 	char		**ns = NULL;
 	size_t		  i, nsz = 0;
+	int		  rc;
 
 	/* Get all role names we're going to assign. */
 
@@ -1333,7 +1334,10 @@ parse_struct_roles(struct parse *p, struct strct *s)
 					"role constraint name");
 				goto cleanup;
 			}
-			name = p->last.string;
+			if ((name = strdup(p->last.string)) == NULL) {
+				parse_err(p);
+				goto cleanup;
+			}
 			parse_next(p);
 		} else if (p->lasttype == TOK_SEMICOLON) {
 			if (type != ROLEMAP_INSERT &&
@@ -1352,8 +1356,10 @@ parse_struct_roles(struct parse *p, struct strct *s)
 
 		/* Assign all roles to the given operation. */
 
-		if (!rolemap_assign(p, s, 
-		    (const char *const *)ns, nsz, type, name))
+		rc = rolemap_assign(p, s, 
+			(const char *const *)ns, nsz, type, name);
+		free(name);
+		if (!rc)
 			goto cleanup;
 
 		if (p->lasttype != TOK_SEMICOLON) {
-- 
2.43.0


From 50f4b9b4c071c86680a05e5a601a00ab54f6dd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:05 +0000
Subject: [PATCH 009/108] fix: update and delete names must be unique

---
 parser_struct.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/parser_struct.c b/parser_struct.c
index 0571229..20b6325 100644
--- a/parser_struct.c
+++ b/parser_struct.c
@@ -915,7 +915,7 @@ parse_struct_unique(struct parse *p, struct strct *s)
 static void
 parse_struct_update(struct parse *p, struct strct *s, enum upt type)
 {
-	struct update	*up;
+	struct update	*up, *uup;
 	struct uref	*ur;
 	char		*cp;
 
@@ -1075,6 +1075,14 @@ terms:
 				parse_errx(p, "expected term name");
 				return;
 			}
+			TAILQ_FOREACH(uup, up->type == UP_MODIFY ? 
+			    &s->uq : &s->dq, entries) {
+				if (uup == up || uup->name == NULL ||
+				    strcasecmp(uup->name, p->last.string))
+					continue;
+				parse_errx(p, "duplicate name");
+				return;
+			}
 			free(up->name);
 			up->name = strdup(p->last.string);
 			if (NULL == up->name) {
-- 
2.43.0


From 868f954ddb2b5281e03db669152030e32d13e356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:13 +0000
Subject: [PATCH 010/108] fix: compare label languages by name

---
 diff.c | 38 +++++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/diff.c b/diff.c
index 01827f0..13ceffe 100644
--- a/diff.c
+++ b/diff.c
@@ -82,10 +82,12 @@ ort_check_rolemap_roles(const struct rolemap *from,
 
 /*
  * Make sure that the queue of labels contains the same data.
+ * Languages are numbered per configuration, so compare their names.
  * Return zero if dissimilar, non-zero if similar.
  */
 static int
-ort_check_labels(const struct labelq *from, const struct labelq *into)
+ort_check_labels(const struct config *cfrom, const struct labelq *from,
+	const struct config *cinto, const struct labelq *into)
 {
 	size_t	 		 fromsz = 0, intosz = 0;
 	const struct label	*linto, *lfrom;
@@ -103,7 +105,8 @@ ort_check_labels(const struct labelq *from, const struct labelq *into)
 
 	TAILQ_FOREACH(lfrom, from, entries) {
 		TAILQ_FOREACH(linto, into, entries) {
-			if (linto->lang != lfrom->lang)
+			if (strcasecmp(cinto->langs[linto->lang],
+			    cfrom->langs[lfrom->lang]))
 				continue;
 			if (strcmp(linto->label, lfrom->label))
 				continue;
@@ -220,6 +223,7 @@ ort_check_comment(const char *from, const char *into)
  */
 static int
 ort_diff_bitidx(struct diffq *q,
+	const struct config *cfrom, const struct config *cinto,
 	const struct bitidx *ifrom, const struct bitidx *iinto)
 {
 	struct diff	*d;
@@ -244,7 +248,8 @@ ort_diff_bitidx(struct diffq *q,
 		type = DIFF_MOD_BITIDX;
 	}
 
-	if (!ort_check_labels(&ifrom->labels, &iinto->labels)) {
+	if (!ort_check_labels
+	    (cfrom, &ifrom->labels, cinto, &iinto->labels)) {
 		if ((d = diff_alloc(q, DIFF_MOD_BITIDX_LABELS)) == NULL)
 			return -1;
 		d->bitidx_pair.from = ifrom;
@@ -436,6 +441,7 @@ ort_diff_field(struct diffq *q,
  */
 static int
 ort_diff_eitem(struct diffq *q,
+	const struct config *cfrom, const struct config *cinto,
 	const struct eitem *ifrom, const struct eitem *iinto)
 {
 	struct diff	*d;
@@ -468,7 +474,8 @@ ort_diff_eitem(struct diffq *q,
 		type = DIFF_MOD_EITEM;
 	}
 
-	if (!ort_check_labels(&ifrom->labels, &iinto->labels)) {
+	if (!ort_check_labels
+	    (cfrom, &ifrom->labels, cinto, &iinto->labels)) {
 		if ((d = diff_alloc(q, DIFF_MOD_EITEM_LABELS)) == NULL)
 			return -1;
 		d->eitem_pair.from = ifrom;
@@ -488,6 +495,7 @@ ort_diff_eitem(struct diffq *q,
  */
 static int
 ort_diff_bitf(struct diffq *q,
+	const struct config *cfrom, const struct config *cinto,
 	const struct bitf *efrom, const struct bitf *einto)
 {
 	const struct bitidx	*ifrom, *iinto;
@@ -504,7 +512,8 @@ ort_diff_bitf(struct diffq *q,
 		TAILQ_FOREACH(ifrom, &efrom->bq, entries)
 			if (strcasecmp(iinto->name, ifrom->name) == 0)
 				break;
-		if ((rc = ort_diff_bitidx(q, ifrom, iinto)) < 0)
+		if ((rc = ort_diff_bitidx
+		    (q, cfrom, cinto, ifrom, iinto)) < 0)
 			return 0;
 		else if (rc > 0)
 			type = DIFF_MOD_BITF;
@@ -534,9 +543,11 @@ ort_diff_bitf(struct diffq *q,
 	}
 
 	if (!ort_check_labels
-	     (&efrom->labels_unset, &einto->labels_unset) ||
+	     (cfrom, &efrom->labels_unset, 
+	      cinto, &einto->labels_unset) ||
 	    !ort_check_labels
-	     (&efrom->labels_null, &einto->labels_null)) {
+	     (cfrom, &efrom->labels_null, 
+	      cinto, &einto->labels_null)) {
 		d = diff_alloc(q, DIFF_MOD_BITF_LABELS);
 		if (d == NULL)
 			return 0;
@@ -1281,6 +1292,7 @@ ort_diff_strct(struct diffq *q,
  */
 static int
 ort_diff_enm(struct diffq *q,
+	const struct config *cfrom, const struct config *cinto,
 	const struct enm *efrom, const struct enm *einto)
 {
 	const struct eitem	*ifrom, *iinto;
@@ -1297,7 +1309,8 @@ ort_diff_enm(struct diffq *q,
 		TAILQ_FOREACH(ifrom, &efrom->eq, entries)
 			if (strcasecmp(iinto->name, ifrom->name) == 0)
 				break;
-		if ((rc = ort_diff_eitem(q, ifrom, iinto)) < 0)
+		if ((rc = ort_diff_eitem
+		    (q, cfrom, cinto, ifrom, iinto)) < 0)
 			return 0;
 		else if (rc > 0)
 			type = DIFF_MOD_ENM;
@@ -1326,7 +1339,8 @@ ort_diff_enm(struct diffq *q,
 	}
 
 	if (!ort_check_labels
-	    (&efrom->labels_null, &einto->labels_null)) {
+	    (cfrom, &efrom->labels_null, 
+	     cinto, &einto->labels_null)) {
 		if ((d = diff_alloc(q, DIFF_MOD_ENM_LABELS)) == NULL)
 			return 0;
 		d->enm_pair.from = efrom;
@@ -1362,7 +1376,8 @@ ort_diff_bitfs(struct diffq *q,
 			if ((d = diff_alloc(q, DIFF_ADD_BITF)) == NULL)
 				return 0;
 			d->bitf = einto;
-		} else if (!ort_diff_bitf(q, efrom, einto))
+		} else if (!ort_diff_bitf
+		    (q, from, into, efrom, einto))
 			return 0;
 	}
 
@@ -1612,7 +1627,8 @@ ort_diff_enms(struct diffq *q,
 			if ((d = diff_alloc(q, DIFF_ADD_ENM)) == NULL)
 				return 0;
 			d->enm = einto;
-		} else if (!ort_diff_enm(q, efrom, einto))
+		} else if (!ort_diff_enm
+		    (q, from, into, efrom, einto))
 			return 0;
 	}
 
-- 
2.43.0


From 5cfa19384582104d0e71560b4ddc25ccfb646fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:13 +0000
Subject: [PATCH 011/108] fix: write removed roles in configuration differences

---
 writer-diff.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/writer-diff.c b/writer-diff.c
index 4ea0f0e..4eb4d8d 100644
--- a/writer-diff.c
+++ b/writer-diff.c
@@ -984,7 +984,7 @@ ort_write_diff_roleq(FILE *f, const struct diffq *q, const struct diff *d)
 		case DIFF_ADD_ROLE:
 			rc = ort_write_role(f, 1, dd);
 			break;
-		case DIFF_DEL_EITEM:
+		case DIFF_DEL_ROLE:
 			rc = ort_write_role(f, 0, dd);
 			break;
 		case DIFF_MOD_ROLE:
-- 
2.43.0


From 51c5ad1e228d9df3783410531e38658cbfa17416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:47 +0000
Subject: [PATCH 012/108] fix: format negative zero as zero

---
 writer.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/writer.c b/writer.c
index e45d098..4e2fd06 100644
--- a/writer.c
+++ b/writer.c
@@ -170,6 +170,9 @@ parse_write_real(struct writer *w, double v)
 	char	 buf[2048];
 	int	 prec;
 
+	if (v == 0.0)
+		v = 0.0; /* No negative zero. */
+
 	snprintf(buf, sizeof(buf), "%g", v);
 	for (prec = 1; prec < 1100; prec++) {
 		if (strchr(buf, 'e') == NULL && strtod(buf, NULL) == v)
-- 
2.43.0


From 5eb706b5b49f94f9e73a7664d1f935da0ccf51f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:00 +0000
Subject: [PATCH 013/108] fix: order structures so that embedded structures
 always follow

---
 linker.c | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/linker.c b/linker.c
index fd7534b..3f3ecea 100644
--- a/linker.c
+++ b/linker.c
@@ -82,26 +82,27 @@ gen_errx(struct config *cfg,
 }
 
 /*
- * Recursively annotate our height from each node.
+ * Recursively annotate our height from each node: the longest path of
+ * references reaching us.
  * We only do this for FTYPE_STRUCT objects.
+ * There are no recursive references, so this always terminates.
  */
 static void
-annotate(struct ref *ref, size_t height, size_t colour)
+annotate(struct ref *ref, size_t height)
 {
 	struct field	*f;
 	struct strct	*p;
 
 	p = ref->target->parent;
 
-	if (p->colour == colour)
+	if (p->height >= height)
 		return;
 
-	p->colour = colour;
-	p->height += height;
+	p->height = height;
 
 	TAILQ_FOREACH(f, &p->fq, entries)
 		if (FTYPE_STRUCT == f->type)
-			annotate(f->ref, height + 1, colour);
+			annotate(f->ref, height + 1);
 }
 
 /*
@@ -493,7 +494,7 @@ ort_parse_close(struct config *cfg)
 	struct field	 *f;
 	struct rolemap	 *rm;
 	struct search	 *srch;
-	size_t		  colour = 1, sz = 0, i = 0;
+	size_t		  sz = 0, i = 0;
 
 	if (TAILQ_EMPTY(&cfg->sq)) {
 		gen_errx(cfg, NULL, "no structures in configuration");
@@ -557,22 +558,15 @@ ort_parse_close(struct config *cfg)
 
 	/*
 	 * Now follow and order all outbound links for structs.
-	 * From the get-go, we don't descend into structures that we've
-	 * already coloured.
 	 * This establishes a "height" that we'll use when ordering our
 	 * structures in the header file.
 	 */
 
 	TAILQ_FOREACH(p, &cfg->sq, entries) {
 		sz++;
-		if (p->colour)
-			continue;
 		TAILQ_FOREACH(f, &p->fq, entries)
-			if (FTYPE_STRUCT == f->type) {
-				p->colour = colour;
-				annotate(f->ref, 1, colour);
-			}
-		colour++;
+			if (FTYPE_STRUCT == f->type)
+				annotate(f->ref, p->height + 1);
 	}
 	assert(sz > 0);
 
-- 
2.43.0


From 798b0320838abdc041a1c56733a9a0d4237fef43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:00 +0000
Subject: [PATCH 014/108] fix: compare each unique statement with all others

---
 linker.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/linker.c b/linker.c
index 3f3ecea..9c32c87 100644
--- a/linker.c
+++ b/linker.c
@@ -394,7 +394,7 @@ check_unique_unique(struct config *cfg, struct strct *s)
 					break;
 			}
 			if (nf != NULL)
-				break;
+				continue;
 			gen_errx(cfg, &u->pos, "duplicate "
 				"unique statements: %s:%zu:%zu",
 				uu->pos.fname, uu->pos.line,
-- 
2.43.0


From 9ed3681cd1eeecdb525402d427e9694235b1cb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:00 +0000
Subject: [PATCH 015/108] fix: alias names past two letters

---
 linker_aliases.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/linker_aliases.c b/linker_aliases.c
index 707c1ec..6b75e02 100644
--- a/linker_aliases.c
+++ b/linker_aliases.c
@@ -85,7 +85,7 @@ linker_aliases_create(struct config *cfg, struct strct *orig,
 		if (*offs >= 26 * 26)
 			c = asprintf(&a->alias, "_%c%c%c", 
 				(char)(*offs / 26 / 26) + 97,
-				(char)(*offs / 26) + 97,
+				(char)(*offs / 26 % 26) + 97,
 				(char)(*offs % 26) + 97);
 		else if (*offs >= 26)
 			c = asprintf(&a->alias, "_%c%c", 
-- 
2.43.0


From 4837aa58a80a22d63f32471ec0a952bfa58a1ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:25 +0000
Subject: [PATCH 016/108] fix: assign all roles of a noexport when some have
 already been

---
 linker_resolve.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/linker_resolve.c b/linker_resolve.c
index ce2dc64..c0aacda 100644
--- a/linker_resolve.c
+++ b/linker_resolve.c
@@ -560,7 +560,7 @@ resolve_struct_rolemap_field(struct config *cfg,
 		/* Already specified! */
 
 		if (rdst != NULL)
-			return 1;
+			continue;
 
 		/* Source doesn't exist in destination. */
 
-- 
2.43.0


From 3e6277fb90532719054fe0fbaa0614180f50e5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:25 +0000
Subject: [PATCH 017/108] fix: do not assign roles of a named noexport to other
 fields

---
 linker_resolve.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/linker_resolve.c b/linker_resolve.c
index c0aacda..d7f1634 100644
--- a/linker_resolve.c
+++ b/linker_resolve.c
@@ -984,6 +984,14 @@ linker_resolve(struct config *cfg)
 				(cfg, &r->field_struct);
 			break;
 		case RESOLVE_ROLEMAP:
+			/*
+			 * An unnamed noexport is shared by all fields
+			 * not having their own, so wait until all named
+			 * have been resolved.
+			 */
+			if (r->struct_rolemap.type == ROLEMAP_NOEXPORT &&
+			    r->struct_rolemap.name == NULL)
+				break;
 			rc = resolve_struct_rolemap
 				(cfg, &r->struct_rolemap);
 			if (rc < 0)
@@ -1018,6 +1026,11 @@ linker_resolve(struct config *cfg)
 				(cfg, &r->struct_order);
 			break;
 		case RESOLVE_ROLEMAP:
+			if (r->struct_rolemap.type == ROLEMAP_NOEXPORT &&
+			    r->struct_rolemap.name == NULL &&
+			    resolve_struct_rolemap
+			    (cfg, &r->struct_rolemap) < 0)
+				return 0;
 			if (!resolve_struct_rolemap_post
 			    (cfg, &r->struct_rolemap))
 				return 0;
-- 
2.43.0


From a7ceebe13d9a8d4818d9d8d33372583a633d467e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:25 +0000
Subject: [PATCH 018/108] fix: remove roles from the queue they are on

---
 config.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config.c b/config.c
index 763d8c7..f40f3d0 100644
--- a/config.c
+++ b/config.c
@@ -377,7 +377,7 @@ ort_config_free(struct config *cfg)
 	}
 
 	while ((r = TAILQ_FIRST(&cfg->arq)) != NULL) {
-		TAILQ_REMOVE(&cfg->rq, r, allentries);
+		TAILQ_REMOVE(&cfg->arq, r, allentries);
 		parse_free_role(r);
 	}
 
-- 
2.43.0


From 6f7c6d68e1517b7e7233d3857349e06fbc080b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:09 +0000
Subject: [PATCH 019/108] fix: escape backslashes and control characters in
 JSON strings

---
 lang-json.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/lang-json.c b/lang-json.c
index d45bf02..c16c99a 100644
--- a/lang-json.c
+++ b/lang-json.c
@@ -118,7 +118,8 @@ static const char *const rolemapts[ROLEMAP__MAX] = {
 /*
  * Format the string according to the JSON specification.
  * Note about escaping the double-quote: in ort(3), double-quotes are
- * already escaped, so we need not do so again here.
+ * already escaped, so a backslash preceding a double-quote is passed
+ * through.  All other backslashes are literal.
  * Return zero on failure, non-zero on sucess.
  */
 static int
@@ -130,6 +131,17 @@ gen_string(FILE *f, const char *cp)
 		return 0;
 	for ( ; *cp != '\0'; cp++) {
 		switch (*cp) {
+		case '\\':
+			if (cp[1] == '"')
+				cp++;
+			else {
+				rc = fputs("\\\\", f) != EOF;
+				break;
+			}
+			/* FALLTHROUGH */
+		case '"':
+			rc = fputs("\\\"", f) != EOF;
+			break;
 		case '\b':
 			rc = fputs("\\b", f) != EOF;
 			break;
@@ -147,7 +159,7 @@ gen_string(FILE *f, const char *cp)
 			break;
 		default:
 			if ((unsigned char)*cp < 32)
-				rc = fprintf(f, "\\u%.4u", *cp) > 0;
+				rc = fprintf(f, "\\u%.4x", *cp) > 0;
 			else
 				rc = fputc(*cp, f) != EOF;
 		}
-- 
2.43.0


From cc9968af6e6c1b210b29d2098bb74c78290ca462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:09 +0000
Subject: [PATCH 020/108] fix: line and column of JSON positions were swapped

---
 lang-json.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lang-json.c b/lang-json.c
index c16c99a..b1b5102 100644
--- a/lang-json.c
+++ b/lang-json.c
@@ -258,7 +258,7 @@ gen_pos(FILE *f, const struct pos *pos)
 	if (!gen_string(f, pos->fname))
 		return 0;
 	return fprintf(f, ", \"line\": %zu, \"column\": %zu },", 
-		pos->column, pos->line) > 0;
+		pos->line, pos->column) > 0;
 }
 
 /*
-- 
2.43.0


From ec151ae11316881c330a30098398ecbb71dbab7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:47 +0000
Subject: [PATCH 021/108] fix: write decimals in JSON so that they parse back
 unchanged

---
 lang-json.c | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/lang-json.c b/lang-json.c
index b1b5102..703d99f 100644
--- a/lang-json.c
+++ b/lang-json.c
@@ -169,6 +169,27 @@ gen_string(FILE *f, const char *cp)
 	return fputc('\"', f) != EOF;
 }
 
+/*
+ * Format a decimal so that it's the same when parsed.
+ * The ort(5) decimal format has no exponent, so neither may this.
+ * Return zero on failure, non-zero on success.
+ */
+static int
+gen_real(FILE *f, double v)
+{
+	char	 buf[2048];
+	int	 prec;
+
+	snprintf(buf, sizeof(buf), "%g", v);
+	for (prec = 1; prec < 1100; prec++) {
+		if (strchr(buf, 'e') == NULL && strtod(buf, NULL) == v)
+			break;
+		snprintf(buf, sizeof(buf), "%.*f", prec, v);
+	}
+
+	return fprintf(f, "\"%s\"", buf) > 0;
+}
+
 /*
  * Generate a full rolemap: rolemapObj[] w/o comma.
  * Return zero on failure, non-zero on success.
@@ -601,7 +622,7 @@ gen_field(FILE *f, const struct field *fd)
 				return 0;
 			break;
 		case FTYPE_REAL:
-			if (fprintf(f, "\"%g\"", fd->def.decimal) < 0)
+			if (!gen_real(f, fd->def.decimal))
 				return 0;
 			break;
 		case FTYPE_EMAIL:
@@ -630,7 +651,7 @@ gen_field(FILE *f, const struct field *fd)
 	if (fputs(" \"fvq\": [", f) == EOF)
 		return 0;	
 	TAILQ_FOREACH(fv, &fd->fvq, entries) {
-		if (fprintf(f, " { \"type\": \"%s\", \"limit\": \"", 
+		if (fprintf(f, " { \"type\": \"%s\", \"limit\": ", 
 		    vtypes[fv->type]) < 0)
 			return 0;
 		switch (fd->type) {
@@ -638,27 +659,26 @@ gen_field(FILE *f, const struct field *fd)
 		case FTYPE_DATE:
 		case FTYPE_EPOCH:
 		case FTYPE_INT:
-			if (fprintf(f, "%" PRId64, 
+			if (fprintf(f, "\"%" PRId64 "\"", 
 			    fv->d.value.integer) < 0)
 				return 0;
 			break;
 		case FTYPE_REAL:
-			if (fprintf(f, "%g", 
-			    fv->d.value.decimal) < 0)
+			if (!gen_real(f, fv->d.value.decimal))
 				return 0;
 			break;
 		case FTYPE_BLOB:
 		case FTYPE_EMAIL:
 		case FTYPE_TEXT:
 		case FTYPE_PASSWORD:
-			if (fprintf(f, "%zu", 
+			if (fprintf(f, "\"%zu\"", 
 			    fv->d.value.len) < 0)
 				return 0;
 			break;
 		default:
 			abort();
 		}
-		if (fputs("\"}", f) == EOF)
+		if (fputc('}', f) == EOF)
 			return 0;
 		if (TAILQ_NEXT(fv, entries) != NULL &&
 		    fputc(',', f) == EOF)
-- 
2.43.0


From 5f6d1193f78ffaa64e9e3005b6f2fb125bae7403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:23 +0000
Subject: [PATCH 022/108] fix: convert date defaults from JSON back to dates

---
 ort-json.ts | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ort-json.ts b/ort-json.ts
index d7dac10..cae0623 100644
--- a/ort-json.ts
+++ b/ort-json.ts
@@ -479,6 +479,16 @@ namespace ortJson {
 			return ' comment "' + doc.replace(/"/g, '\\"') + '"';
 		}
 
+		/* In JSON, dates are in epoch seconds, as in ort(3). */
+
+		private dateToString(date: string): string
+		{
+			const d: Date = new Date(Number(date) * 1000);
+			return d.getUTCFullYear() + 
+				'-' + (d.getUTCMonth() + 1) +
+				'-' + d.getUTCDate();
+		}
+
 		private roleObjToString(r: roleObj): string
 		{
 			let str: string = ' role ' + r.name;
@@ -543,6 +553,8 @@ namespace ortJson {
 				str += ' default "' + 
 					field.def.replace(/"/g, '\\"') +
 					'"';
+			else if (field.def !== null && field.type === 'date')
+				str += ' default ' + this.dateToString(field.def);
 			else if (field.def !== null)
 				str += ' default ' + field.def;
 
-- 
2.43.0


From 2f2f62324557276fd6b481ca997857a41cada9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:49 +0000
Subject: [PATCH 023/108] fix: C manpages of configurations without inserts

---
 lang-c-manpage.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lang-c-manpage.c b/lang-c-manpage.c
index 9073d25..24bc9bf 100644
--- a/lang-c-manpage.c
+++ b/lang-c-manpage.c
@@ -981,7 +981,7 @@ gen_inserts(FILE *f, const struct config *cfg, int syn)
 		if (s->ins != NULL)
 			break;
 	if (s == NULL)
-		return 0;
+		return 1;
 
 	if (!syn && fputs(
 	    ".Ss Database inserts\n"
@@ -989,11 +989,11 @@ gen_inserts(FILE *f, const struct config *cfg, int syn)
 	    "All functions return -1 on constraint failure or the new\n"
 	    "row identifier on success.\n"
 	    ".Bl -tag -width Ds\n", f) == EOF)
-		return -1;
+		return 0;
 
 	TAILQ_FOREACH(s, &cfg->sq, entries) 
 		if (s->ins != NULL && !gen_insert(f, s, syn))
-			return -1;
+			return 0;
 
 	if (!syn && fputs(".El\n", f) == EOF)
 		return 0;
-- 
2.43.0


From df15994a0980f7a91b93902232bea8c52a928d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:49 +0000
Subject: [PATCH 024/108] fix: terminate quoted blob size arguments in C
 manpages

---
 lang-c-manpage.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lang-c-manpage.c b/lang-c-manpage.c
index 24bc9bf..4eb8b07 100644
--- a/lang-c-manpage.c
+++ b/lang-c-manpage.c
@@ -459,7 +459,7 @@ gen_query(FILE *f, const struct search *sr, int syn)
 				continue;
 			if (sent->field->type == FTYPE_BLOB)
 				if (fprintf(f,
-				    ".Fa \"size_t %s_sz\n",
+				    ".Fa \"size_t %s_sz\"\n",
 				    sent->field->name) < 0)
 					return 0;
 			if (fputs(".Fa \"", f) == EOF)
@@ -744,7 +744,7 @@ gen_update(FILE *f, const struct update *up, int syn)
 		if (syn) {
 			if (ur->field->type == FTYPE_BLOB)
 				if (fprintf(f,
-				    ".Fa \"size_t %s_sz\n",
+				    ".Fa \"size_t %s_sz\"\n",
 				    ur->field->name) < 0)
 					return 0;
 			if (fputs(".Fa \"", f) == EOF)
@@ -776,7 +776,7 @@ gen_update(FILE *f, const struct update *up, int syn)
 		if (syn) {
 			if (ur->field->type == FTYPE_BLOB)
 				if (fprintf(f,
-				    ".Fa \"size_t %s_sz\n",
+				    ".Fa \"size_t %s_sz\"\n",
 				    ur->field->name) < 0)
 					return 0;
 			if (fputs(".Fa \"", f) == EOF)
-- 
2.43.0


From cfb966d7e59d1c9e91fa0828c57e70f74677a4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:30 +0000
Subject: [PATCH 025/108] fix: release labels when extracting to XLIFF

---
 lang-xliff.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lang-xliff.c b/lang-xliff.c
index 66dc4ad..2881c05 100644
--- a/lang-xliff.c
+++ b/lang-xliff.c
@@ -1021,6 +1021,7 @@ ort_lang_xliff_extract(const struct ort_lang_xliff *args,
 
 	rc = fputs("\t\t</body>\n\t</file>\n</xliff>\n", f) != EOF;
 out:
+	free(s);
 	if (mq == &tmpq)
 		ort_msgq_free(mq);
 	return rc;
-- 
2.43.0


From 5a7555175d502daa858d19e1cc897d986ef5b76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:30 +0000
Subject: [PATCH 026/108] fix: do not crash on XLIFF with missing or empty
 elements

---
 lang-xliff.c | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/lang-xliff.c b/lang-xliff.c
index 2881c05..b717391 100644
--- a/lang-xliff.c
+++ b/lang-xliff.c
@@ -305,7 +305,7 @@ xstart(void *dat, const XML_Char *s, const XML_Char **atts)
 			return;
 		}
 	} else if (strcmp(s, "trans-unit") == 0) {
-		if (p->set->trglang == NULL) {
+		if (p->set == NULL || p->set->trglang == NULL) {
 			xparse_err(p, "<trans-unit> not in <file>");
 			XML_StopParser(p->p, 0);
 			return;
@@ -466,8 +466,15 @@ xend(void *dat, const XML_Char *s)
 
 	XML_SetDefaultHandlerExpand(p->p, NULL);
 
+	/* 
+	 * If parsing was stopped when starting an empty element, this
+	 * is still invoked for it (and we might not have a unit).
+	 */
+
+	if (p->curunit == NULL)
+		return;
+
 	if (strcmp(s, "trans-unit") == 0) {
-		assert(p->curunit != NULL);
 		if (p->curunit->source == NULL || 
 		    p->curunit->target == NULL) {
 			xparse_err(p, "missing <source> or "
@@ -477,12 +484,12 @@ xend(void *dat, const XML_Char *s)
 		}
 		p->curunit = NULL;
 	} else if (strcmp(s, "target") == 0) {
-		assert(p->curunit != NULL);
-		unescape(p->curunit->target);
+		if (p->curunit->target != NULL)
+			unescape(p->curunit->target);
 		p->type = 0;
 	} else if (strcmp(s, "source") == 0) {
-		assert(p->curunit != NULL);
-		unescape(p->curunit->source);
+		if (p->curunit->source != NULL)
+			unescape(p->curunit->source);
 		p->type = 0;
 	}
 }
@@ -536,6 +543,12 @@ xliff_read(struct msgq *mq, FILE *f,
 		return 0;
 	} while (!feof(f));
 
+	if (xp->set == NULL || xp->set->trglang == NULL) {
+		xparse_err(xp, "missing <xliff> or <file>");
+		xparse_free(xp);
+		return 0;
+	}
+
 	*ret = xp->set;
 	xp->set = NULL;
 	xparse_free(xp);
-- 
2.43.0


From e4a090a653e28851832940d3cc573541a06feb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:30 +0000
Subject: [PATCH 027/108] fix: exit status of ort-xliff on hard failures

---
 xliff.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xliff.c b/xliff.c
index ad30878..47f92d2 100644
--- a/xliff.c
+++ b/xliff.c
@@ -172,6 +172,8 @@ main(int argc, char *argv[])
 		break;
 	}
 
+	if (rc < 0)
+		rc = 0;
 	if (!rc)
 		warn(NULL);
 out:
-- 
2.43.0


From 20d65d134007d0dcd585b372b50c260357cbd9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:11 +0000
Subject: [PATCH 028/108] fix: escape double quotes of joined translations

---
 lang-xliff.c | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/lang-xliff.c b/lang-xliff.c
index b717391..95e6485 100644
--- a/lang-xliff.c
+++ b/lang-xliff.c
@@ -566,6 +566,30 @@ xliffunit_sort(const void *a1, const void *a2)
 	return strcmp(p1->source, p2->source);
 }
 
+/*
+ * Convert a translation into label text, where double quotes must be
+ * escaped by a backslash.
+ * Return NULL on memory failure.
+ */
+static char *
+label_text(const char *s)
+{
+	size_t	 i, count;
+	char	*buf;
+
+	if ((buf = malloc(strlen(s) * 2 + 1)) == NULL)
+		return NULL;
+
+	for (i = count = 0; s[i] != '\0'; i++) {
+		if (s[i] == '"' && (i == 0 || s[i - 1] != '\\'))
+			buf[count++] = '\\';
+		buf[count++] = s[i];
+	}
+
+	buf[count] = '\0';
+	return buf;
+}
+
 /*
  * Return <0 on error, 0 on syntax error, >0 on success.
  */
@@ -648,13 +672,21 @@ xliff_join_unit(struct config *cfg, struct labelq *q, int copy,
 		return 1;
 	}
 
-	/* Add the translation. */
+	/* Add the translation, if it can be a label. */
+
+	if (*targ == '\0' || targ[strlen(targ) - 1] == '\\') {
+		ort_msg(mq, MSGTYPE_ERROR, 0, pos, 
+			"translation empty or ends in a backslash");
+		return 0;
+	}
 
 	if ((l = calloc(1, sizeof(struct label))) == NULL)
 		return -1;
 	l->lang = lang;
-	if ((l->label = strdup(targ)) == NULL)
+	if ((l->label = label_text(targ)) == NULL) {
+		free(l);
 		return -1;
+	}
 	TAILQ_INSERT_TAIL(q, l, entries);
 	return 1;
 }
-- 
2.43.0


From 3e38872c1659873246e2f8c6a09249eff8c8a435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:11 +0000
Subject: [PATCH 029/108] fix: escape attributes in XLIFF output

---
 lang-xliff.c | 38 ++++++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/lang-xliff.c b/lang-xliff.c
index 95e6485..0fcc2a9 100644
--- a/lang-xliff.c
+++ b/lang-xliff.c
@@ -855,7 +855,8 @@ ort_lang_xliff_update(const struct ort_lang_xliff *args,
 	const struct eitem 	*ei;
 	const struct bitf	*b;
 	const struct bitidx	*bi;
-	char			*sbuf = NULL, *tbuf = NULL;
+	char			*sbuf = NULL, *tbuf = NULL,
+				*nbuf = NULL, *obuf = NULL;
 	struct msgq		 tmpq = TAILQ_HEAD_INITIALIZER(tmpq);
 
 	if ((p = XML_ParserCreate(NULL)) == NULL)
@@ -899,15 +900,26 @@ ort_lang_xliff_update(const struct ort_lang_xliff *args,
 	rc = -1;
 	qsort(x->u, x->usz, sizeof(struct xliffunit), xliffunit_sort);
 
+	if ((sbuf = escape(x->srclang)) == NULL ||
+	    (tbuf = escape(x->trglang)) == NULL ||
+	    (obuf = escape(x->original)) == NULL)
+		goto out;
+
 	if (fprintf(f, 
 	    "<xliff version=\"1.2\" "
 	    "xmlns=\"urn:oasis:names:tc:xliff:document:1.2\">\n"
 	    "\t<file target-language=\"%s\" source-language=\"%s\" "
 	    "original=\"%s\" datatype=\"plaintext\">\n"
-            "\t\t<body>\n", x->trglang, x->srclang, x->original) < 0)
+            "\t\t<body>\n", tbuf, sbuf, obuf) < 0)
 		goto out;
 
+	free(sbuf);
+	free(tbuf);
+	sbuf = tbuf = NULL;
+
 	for (i = 0; i < x->usz; i++) {
+		if ((nbuf = escape(x->u[i].name)) == NULL)
+			goto out;
 		if ((sbuf = escape(x->u[i].source)) == NULL)
 			goto out;
 		if (x->u[i].target != NULL &&
@@ -921,14 +933,14 @@ ort_lang_xliff_update(const struct ort_lang_xliff *args,
 			    "\t\t\t\t<source>%s</source>\n"
 			    "\t\t\t\t<target>%s</target>\n"
 			    "\t\t\t</trans-unit>\n",
-			    x->u[i].name, sbuf, sbuf) < 0)
+			    nbuf, sbuf, sbuf) < 0)
 				goto out;
 		} else if (tbuf == NULL) {
 			if (fprintf(f, 
 			    "\t\t\t<trans-unit id=\"%s\">\n"
 			    "\t\t\t\t<source>%s</source>\n"
 			    "\t\t\t</trans-unit>\n",
-			    x->u[i].name, sbuf) < 0)
+			    nbuf, sbuf) < 0)
 				goto out;
 		} else {
 			if (fprintf(f, 
@@ -936,12 +948,13 @@ ort_lang_xliff_update(const struct ort_lang_xliff *args,
 			    "\t\t\t\t<source>%s</source>\n"
 			    "\t\t\t\t<target>%s</target>\n"
 			    "\t\t\t</trans-unit>\n",
-			    x->u[i].name, sbuf, tbuf) < 0)
+			    nbuf, sbuf, tbuf) < 0)
 				goto out;
 		}
+		free(nbuf);
 		free(sbuf);
 		free(tbuf);
-		sbuf = tbuf = NULL;
+		nbuf = sbuf = tbuf = NULL;
 	}
 
 	if (fputs("\t\t</body>\n\t</file>\n</xliff>\n", f) == EOF)
@@ -949,6 +962,8 @@ ort_lang_xliff_update(const struct ort_lang_xliff *args,
 
 	rc = 1;
 out:
+	free(nbuf);
+	free(obuf);
 	free(sbuf);
 	free(tbuf);
 	xparse_xliff_free(x);
@@ -1036,12 +1051,19 @@ ort_lang_xliff_extract(const struct ort_lang_xliff *args,
 	 * Escape all '<' and '&' as '&lt;' and '&amp;'.
 	 */
 
-	if (fprintf(f, "<xliff version=\"1.2\" "
+	buf = escape(cfg->fnamesz ? cfg->fnames[0] : "");
+	if (buf == NULL)
+		goto out;
+	rc = fprintf(f, "<xliff version=\"1.2\" "
 	    "xmlns=\"urn:oasis:names:tc:xliff:document:1.2\">\n"
 	    "\t<file source-language=\"TODO\" original=\"%s\" "
 	    "target-language=\"TODO\" datatype=\"plaintext\">\n"
-            "\t\t<body>\n", cfg->fnamesz ? cfg->fnames[0] : "") < 0)
+            "\t\t<body>\n", buf);
+	free(buf);
+	if (rc < 0) {
+		rc = 0;
 		goto out;
+	}
 
 	for (i = 0; i < ssz; i++) {
 		rc = 0;
-- 
2.43.0


From 7bd7d5f45e16fd59e977adc7791ed7c53c43aa00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:11 +0000
Subject: [PATCH 030/108] fix: reject joined languages that are not identifiers

---
 lang-xliff.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/lang-xliff.c b/lang-xliff.c
index 0fcc2a9..b9ac218 100644
--- a/lang-xliff.c
+++ b/lang-xliff.c
@@ -21,6 +21,7 @@
 #endif
 
 #include <assert.h>
+#include <ctype.h>
 #include <expat.h>
 #include <limits.h> /* INT_MAX */
 #include <stdarg.h>
@@ -812,6 +813,26 @@ xliff_join_single(struct config *cfg, int copy,
 
 	assert(x->trglang != NULL);
 
+	/* Languages are identifiers in the configuration. */
+
+	for (i = 0; x->trglang[i] != '\0'; i++) {
+		x->trglang[i] = (char)tolower
+			((unsigned char)x->trglang[i]);
+		if (isalpha((unsigned char)x->trglang[i]) ||
+		    (i > 0 && isdigit((unsigned char)x->trglang[i])))
+			continue;
+		break;
+	}
+
+	if (i == 0 || x->trglang[i] != '\0') {
+		pos.fname = fn;
+		pos.line = pos.column = 0;
+		ort_msg(mq, MSGTYPE_ERROR, 0, &pos, 
+			"language \"%s\" not an identifier", x->trglang);
+		xparse_xliff_free(x);
+		return 0;
+	}
+
 	for (i = 0; i < cfg->langsz; i++)
 		if (strcmp(cfg->langs[i], x->trglang) == 0)
 			break;
-- 
2.43.0


From ded4609f22b8fafd48a01e099e6426b2294d229f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:11 +0000
Subject: [PATCH 031/108] fix: translate the null labels of enumerations

---
 lang-xliff.c | 41 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/lang-xliff.c b/lang-xliff.c
index b9ac218..a9e5157 100644
--- a/lang-xliff.c
+++ b/lang-xliff.c
@@ -74,6 +74,22 @@ static	void xstart(void *, const XML_Char *, const XML_Char **);
 static	void xparse_err(struct xparse *, const char *, ...)
 	__attribute__((format(printf, 2, 3)));
 
+/*
+ * Return non-zero if there's a default label for translating, zero if
+ * not.
+ */
+static int
+has_label(const struct labelq *lq)
+{
+	const struct label	*l;
+
+	TAILQ_FOREACH(l, lq, entries)
+		if (l->lang == 0)
+			return 1;
+
+	return 0;
+}
+
 /*
  * Return zero on failure, non-zero on success.
  */
@@ -770,6 +786,16 @@ xliff_join_xliff(struct config *cfg, int copy,
 				return rc;
 		}
 
+	TAILQ_FOREACH(e, &cfg->eq, entries) {
+		if (!has_label(&e->labels_null))
+			continue;
+		rc = xliff_join_unit
+		    (cfg, &e->labels_null, copy, 
+		     "isnull", lang, x, &e->pos, mq);
+		if (rc <= 0)
+			return rc;
+	}
+
 	TAILQ_FOREACH(b, &cfg->bq, entries) {
 		TAILQ_FOREACH(bi, &b->bq, entries) {
 			rc = xliff_join_unit
@@ -901,6 +927,15 @@ ort_lang_xliff_update(const struct ort_lang_xliff *args,
 				goto out;
 		}
 
+	TAILQ_FOREACH(e, &cfg->eq, entries) {
+		if (!has_label(&e->labels_null))
+			continue;
+		rc = xliff_update_unit
+		    (mq, &e->labels_null, "isnull", x, &e->pos);
+		if (rc <= 0)
+			goto out;
+	}
+
 	TAILQ_FOREACH(b, &cfg->bq, entries) {
 		TAILQ_FOREACH(bi, &b->bq, entries) {
 			rc = xliff_update_unit
@@ -1052,6 +1087,12 @@ ort_lang_xliff_extract(const struct ort_lang_xliff *args,
 			    NULL, &ei->pos, &s, &ssz))
 				goto out;
 
+	TAILQ_FOREACH(e, &cfg->eq, entries)
+		if (has_label(&e->labels_null) &&
+		    !xliff_extract_unit(mq, f, &e->labels_null, 
+		    "isnull", &e->pos, &s, &ssz))
+			goto out;
+
 	TAILQ_FOREACH(b, &cfg->bq, entries) {
 		TAILQ_FOREACH(bi, &b->bq, entries)
 			if (!xliff_extract_unit(mq, f, &bi->labels, 
-- 
2.43.0


From 16f93387905a02e8ca82b51e3c0298c5029b8637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:22 +0000
Subject: [PATCH 032/108] fix: options separating files with a permuting
 getopt(3)

The -f and -x options come after file operands and are not getopt(3) options: GNU getopt
permutes operands, so the documented invocations failed.
---
 maindiff.c | 2 +-
 sqldiff.c  | 2 +-
 xliff.c    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/maindiff.c b/maindiff.c
index bfec866..12d8136 100644
--- a/maindiff.c
+++ b/maindiff.c
@@ -48,7 +48,7 @@ main(int argc, char *argv[])
 		err(2, "pledge");
 #endif
 
-	if (getopt(argc, argv, "d") != -1)
+	if (getopt(argc, argv, "+d") != -1)
 		goto usage;
 
 	argc -= optind;
diff --git a/sqldiff.c b/sqldiff.c
index cbf2bea..33d39fd 100644
--- a/sqldiff.c
+++ b/sqldiff.c
@@ -50,7 +50,7 @@ main(int argc, char *argv[])
 		err(EXIT_FAILURE, "pledge");
 #endif
 
-	while ((c = getopt(argc, argv, "d")) != -1)
+	while ((c = getopt(argc, argv, "+d")) != -1)
 		switch (c) {
 		case 'd':
 			destruct = 1;
diff --git a/xliff.c b/xliff.c
index 47f92d2..d6e077f 100644
--- a/xliff.c
+++ b/xliff.c
@@ -54,7 +54,7 @@ main(int argc, char *argv[])
 
 	memset(&args, 0, sizeof(struct ort_lang_xliff));
 
-	while ((c = getopt(argc, argv, "cju")) != -1)
+	while ((c = getopt(argc, argv, "+cju")) != -1)
 		switch (c) {
 		case 'c':
 			args.flags |= ORT_LANG_XLIFF_COPY;
-- 
2.43.0


From bca8c262e59c0e4f5052c4f00389ed7dee78016d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:33 +0000
Subject: [PATCH 033/108] fix: release a redeclared textual default

---
 parser_field.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser_field.c b/parser_field.c
index 3b84d95..1c605e2 100644
--- a/parser_field.c
+++ b/parser_field.c
@@ -390,6 +390,7 @@ parse_field_info(struct parse *p, struct field *fd)
 					parse_errx(p, "expected literal");
 					break;
 				}
+				free(fd->def.string);
 				fd->flags |= FIELD_HASDEF;
 				fd->def.string = strdup(p->last.string);
 				if (fd->def.string == NULL) {
-- 
2.43.0


From 43e61460714cff902def739e3127d359d89debba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:14 +0000
Subject: [PATCH 034/108] fix: bit operators of update constraints need bits

---
 linker_resolve.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/linker_resolve.c b/linker_resolve.c
index d7f1634..fa97397 100644
--- a/linker_resolve.c
+++ b/linker_resolve.c
@@ -319,6 +319,20 @@ resolve_up_const(struct config *cfg, struct struct_up_const *r)
 		errs++;
 	}
 
+	/* As with queries, logical operators need bits. */
+
+	if (r->result->field != NULL &&
+	    (r->result->op == OPTYPE_AND ||
+	     r->result->op == OPTYPE_OR) &&
+	    r->result->field->type != FTYPE_BIT &&
+	    r->result->field->type != FTYPE_BITFIELD &&
+	    r->result->field->type != FTYPE_INT) {
+		gen_errx(cfg, &r->result->pos, "bit operations "
+			"only available on bit, bitfield, "
+			"and integer types");
+		errs++;
+	}
+
 	return errs == 0;
 }
 
-- 
2.43.0


From 09d68a5d05879a66853740e5edc010907bab47d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:10 +0000
Subject: [PATCH 035/108] fix: reserve the remaining C keywords

---
 parser.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parser.c b/parser.c
index 4b4a97a..fcc81cb 100644
--- a/parser.c
+++ b/parser.c
@@ -54,17 +54,24 @@ static	const char *const badidents[] = {
 	"extern",
 	"float",
 	"goto",
+	"inline",
+	"int",
 	"long",
 	"register",
+	"restrict",
+	"return",
 	"short",
 	"signed",
+	"sizeof",
 	"static",
 	"struct",
+	"switch",
 	"typedef",
 	"union",
 	"unsigned",
 	"void",
 	"volatile",
+	"while",
 	/* Things not allowed in SQLite. */
 	"ABORT",
 	"ACTION",
-- 
2.43.0


From 26432015e56d067f7121569556a3bc0ed6e44392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:10 +0000
Subject: [PATCH 036/108] fix: reserve the remaining words not allowed in
 SQLite

---
 parser.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser.c b/parser.c
index fcc81cb..ae6481e 100644
--- a/parser.c
+++ b/parser.c
@@ -150,6 +150,7 @@ static	const char *const badidents[] = {
 	"MATCH",
 	"NATURAL",
 	"NOT",
+	"NOTHING",
 	"NOTNULL",
 	"NULL",
 	"OF",
@@ -171,6 +172,7 @@ static	const char *const badidents[] = {
 	"RENAME",
 	"REPLACE",
 	"RESTRICT",
+	"RETURNING",
 	"RIGHT",
 	"ROLLBACK",
 	"ROW",
-- 
2.43.0


From f69ceae00b2c7cc276b255cd187427fd7fa282f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:47 +0000
Subject: [PATCH 037/108] fix: write decimal defaults in SQL with full
 precision

---
 lang-sql.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lang-sql.c b/lang-sql.c
index 01a8315..26ec919 100644
--- a/lang-sql.c
+++ b/lang-sql.c
@@ -305,7 +305,7 @@ gen_diff_field_new(FILE *f, const struct field *fd)
 			rc = fprintf(f, "%" PRId64, fd->def.integer);
 			break;
 		case FTYPE_REAL:
-			rc = fprintf(f, "%g", fd->def.decimal);
+			rc = fprintf(f, "%.17g", fd->def.decimal);
 			break;
 		case FTYPE_EMAIL:
 		case FTYPE_TEXT:
-- 
2.43.0


From 5c01ce0d1dcfa3b312f1f5db11f0b669084abf01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:47 +0000
Subject: [PATCH 038/108] fix: escape textual defaults in SQL

---
 lang-sql.c | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/lang-sql.c b/lang-sql.c
index 26ec919..7ec087d 100644
--- a/lang-sql.c
+++ b/lang-sql.c
@@ -263,6 +263,27 @@ ort_lang_sql(const struct ort_lang_sql *args,
 	return 1;
 }
 
+/*
+ * Write the content of a string literal as an SQL string.
+ * This accepts that double-quotes are escaped in the literal.
+ */
+static int
+gen_string(FILE *f, const char *s)
+{
+
+	if (fputc('\'', f) == EOF)
+		return 0;
+	for ( ; *s != '\0'; s++) {
+		if (s[0] == '\\' && s[1] == '"')
+			continue;
+		if (*s == '\'' && fputc('\'', f) == EOF)
+			return 0;
+		if (fputc(*s, f) == EOF)
+			return 0;
+	}
+	return fputc('\'', f) != EOF;
+}
+
 /*
  * This is the ALTER TABLE version of the field generators in
  * gen_struct().
@@ -309,7 +330,7 @@ gen_diff_field_new(FILE *f, const struct field *fd)
 			break;
 		case FTYPE_EMAIL:
 		case FTYPE_TEXT:
-			rc = fprintf(f, "'%s'", fd->def.string);
+			rc = gen_string(f, fd->def.string) ? 0 : -1;
 			break;
 		case FTYPE_ENUM:
 			rc = fprintf(f, "%" PRId64, 
-- 
2.43.0


From 4b3ad825970e74f5cfca1f797d6165e4624d442b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:47 +0000
Subject: [PATCH 039/108] fix: refuse SQL differences adding row identifiers

---
 lang-sql.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lang-sql.c b/lang-sql.c
index 7ec087d..bdd3c4d 100644
--- a/lang-sql.c
+++ b/lang-sql.c
@@ -359,6 +359,13 @@ gen_check_fields(struct msgq *mq, const struct diffq *q, int destruct)
 
 	TAILQ_FOREACH(d, q, entries) {
 		switch (d->type) {
+		case DIFF_ADD_FIELD:
+			if (!(d->field->flags & FIELD_ROWID))
+				break;
+			gen_warnx(mq, &d->field->pos, 
+				"row identifier was added");
+			errors++;
+			break;
 		case DIFF_DEL_FIELD:
 			if (destruct || d->field->type == FTYPE_STRUCT)
 				break;
-- 
2.43.0


From 7ac965457bc01761ebbbbd36cc96510e7d0acd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:12 +0000
Subject: [PATCH 040/108] fix: do not run foreign key actions when dropping
 tables

---
 lang-sql.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/lang-sql.c b/lang-sql.c
index bdd3c4d..481c66c 100644
--- a/lang-sql.c
+++ b/lang-sql.c
@@ -564,7 +564,7 @@ ort_lang_diff_sql(const struct ort_lang_sql *args,
 {
 	const struct diff	*d;
 	size_t	 		 errors = 0;
-	int	 		 rc = 0, prol = 0;
+	int	 		 rc = 0, prol = 0, drops = 0;
 	struct msgq		 tmpq = TAILQ_HEAD_INITIALIZER(tmpq);
 
 	if (mq == NULL)
@@ -676,14 +676,26 @@ ort_lang_diff_sql(const struct ort_lang_sql *args,
 				goto out;
 		}
 
+	/*
+	 * Dropping a table implicitly deletes its rows, so don't let
+	 * foreign keys to it (or to tables dropped later) fail or
+	 * cascade into rows we retain.
+	 */
+
 	TAILQ_FOREACH(d, q, entries) 
 		if (d->type == DIFF_DEL_STRCT && destruct) {
 			if (!gen_prologue(f, &prol))
 				goto out;
+			if (!drops && fputs
+			    ("PRAGMA foreign_keys=OFF;\n", f) == EOF)
+				goto out;
+			drops = 1;
 			if (fprintf(f,
 			    "DROP TABLE %s;\n", d->strct->name) < 0)
 				goto out;
 		}
+	if (drops && fputs("PRAGMA foreign_keys=ON;\n", f) == EOF)
+		goto out;
 
 	rc = 1;
 out:
-- 
2.43.0


From bef09c176f51ff2be1ebba5b7475c968ca33431a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:54 +0000
Subject: [PATCH 041/108] fix: default values of referential actions

---
 lang-sql.c | 141 ++++++++++++++++++++++++++++++++---------------------
 1 file changed, 86 insertions(+), 55 deletions(-)

diff --git a/lang-sql.c b/lang-sql.c
index 481c66c..c1965b3 100644
--- a/lang-sql.c
+++ b/lang-sql.c
@@ -172,6 +172,65 @@ gen_fkeys(FILE *f, const struct field *fd, int *first)
 	return 1;
 }
 
+/*
+ * Write the content of a string literal as an SQL string.
+ * This accepts that double-quotes are escaped in the literal.
+ */
+static int
+gen_string(FILE *f, const char *s)
+{
+
+	if (fputc('\'', f) == EOF)
+		return 0;
+	for ( ; *s != '\0'; s++) {
+		if (s[0] == '\\' && s[1] == '"')
+			continue;
+		if (*s == '\'' && fputc('\'', f) == EOF)
+			return 0;
+		if (fputc(*s, f) == EOF)
+			return 0;
+	}
+	return fputc('\'', f) != EOF;
+}
+
+/*
+ * Generate the default value of a field.
+ * Return zero on failure, non-zero on success.
+ */
+static int
+gen_default(FILE *f, const struct field *fd)
+{
+	int	 rc;
+
+	if (fputs(" DEFAULT ", f) == EOF)
+		return 0;
+
+	switch (fd->type) {
+	case FTYPE_BIT:
+	case FTYPE_BITFIELD:
+	case FTYPE_DATE:
+	case FTYPE_EPOCH:
+	case FTYPE_INT:
+		rc = fprintf(f, "%" PRId64, fd->def.integer);
+		break;
+	case FTYPE_REAL:
+		rc = fprintf(f, "%.17g", fd->def.decimal);
+		break;
+	case FTYPE_EMAIL:
+	case FTYPE_TEXT:
+		rc = gen_string(f, fd->def.string) ? 0 : -1;
+		break;
+	case FTYPE_ENUM:
+		rc = fprintf(f, "%" PRId64, fd->def.eitem->value);
+		break;
+	default:
+		abort();
+		/* NOTREACHED */
+	}
+
+	return rc >= 0;
+}
+
 /*
  * Generate a column for this table.
  * Return zero on failure, non-zero on success.
@@ -200,6 +259,13 @@ gen_field(FILE *f, const struct field *fd, int *first, int comments)
 	    !(fd->flags & FIELD_NULL) && fputs(" NOT NULL", f) == EOF)
 		return 0;
 
+	/* Only referential actions make use of the default. */
+
+	if ((fd->flags & FIELD_HASDEF) &&
+	    (fd->actdel == UPACT_DEFAULT || 
+	     fd->actup == UPACT_DEFAULT) && !gen_default(f, fd))
+		return 0;
+
 	*first = 0;
 	return 1;
 }
@@ -263,27 +329,6 @@ ort_lang_sql(const struct ort_lang_sql *args,
 	return 1;
 }
 
-/*
- * Write the content of a string literal as an SQL string.
- * This accepts that double-quotes are escaped in the literal.
- */
-static int
-gen_string(FILE *f, const char *s)
-{
-
-	if (fputc('\'', f) == EOF)
-		return 0;
-	for ( ; *s != '\0'; s++) {
-		if (s[0] == '\\' && s[1] == '"')
-			continue;
-		if (*s == '\'' && fputc('\'', f) == EOF)
-			return 0;
-		if (fputc(*s, f) == EOF)
-			return 0;
-	}
-	return fputc('\'', f) != EOF;
-}
-
 /*
  * This is the ALTER TABLE version of the field generators in
  * gen_struct().
@@ -291,8 +336,6 @@ gen_string(FILE *f, const char *s)
 static int
 gen_diff_field_new(FILE *f, const struct field *fd)
 {
-	int	 rc;
-
 	if (fprintf(f, "ALTER TABLE %s ADD COLUMN %s %s",
 	    fd->parent->name, fd->name, ftypes[fd->type]) < 0)
 		return 0;
@@ -314,35 +357,8 @@ gen_diff_field_new(FILE *f, const struct field *fd)
 	    fprintf(f, " ON DELETE %s", upacts[fd->actdel]) < 0)
 		return 0;
 
-	if (fd->flags & FIELD_HASDEF) {
-		if (fputs(" DEFAULT ", f) == EOF)
-			return 0;
-		switch (fd->type) {
-		case FTYPE_BIT:
-		case FTYPE_BITFIELD:
-		case FTYPE_DATE:
-		case FTYPE_EPOCH:
-		case FTYPE_INT:
-			rc = fprintf(f, "%" PRId64, fd->def.integer);
-			break;
-		case FTYPE_REAL:
-			rc = fprintf(f, "%.17g", fd->def.decimal);
-			break;
-		case FTYPE_EMAIL:
-		case FTYPE_TEXT:
-			rc = gen_string(f, fd->def.string) ? 0 : -1;
-			break;
-		case FTYPE_ENUM:
-			rc = fprintf(f, "%" PRId64, 
-				fd->def.eitem->value);
-			break;
-		default:
-			abort();
-			/* NOTREACHED */
-		}
-		if (rc < 0)
-			return 0;
-	}
+	if ((fd->flags & FIELD_HASDEF) && !gen_default(f, fd))
+		return 0;
 
 	return fputs(";\n", f) != EOF;
 }
@@ -355,9 +371,8 @@ gen_check_fields(struct msgq *mq, const struct diffq *q, int destruct)
 	size_t	 		 errors = 0;
 	unsigned int		 mask;
 
-	mask = FIELD_ROWID | FIELD_NULL;
-
 	TAILQ_FOREACH(d, q, entries) {
+		mask = FIELD_ROWID | FIELD_NULL;
 		switch (d->type) {
 		case DIFF_ADD_FIELD:
 			if (!(d->field->flags & FIELD_ROWID))
@@ -386,14 +401,30 @@ gen_check_fields(struct msgq *mq, const struct diffq *q, int destruct)
 			f = d->field_pair.into;
 			df = d->field_pair.from;
 
-			/* We only care about SQL flags. */
+			/* 
+			 * We only care about SQL flags and the default
+			 * if used by referential actions.
+			 */
 
+			if (f->actdel == UPACT_DEFAULT ||
+			    f->actup == UPACT_DEFAULT)
+				mask |= FIELD_HASDEF;
 			if ((f->flags & mask) == (df->flags & mask))
 				break;
 			diff_errx(mq, &df->pos, &f->pos, 
 				"field flag has changed");
 			errors++;
 			break;
+		case DIFF_MOD_FIELD_DEF:
+			f = d->field_pair.into;
+			df = d->field_pair.from;
+			if (f->actdel != UPACT_DEFAULT &&
+			    f->actup != UPACT_DEFAULT)
+				break;
+			diff_errx(mq, &df->pos, &f->pos, 
+				"default of field action has changed");
+			errors++;
+			break;
 		case DIFF_MOD_FIELD_ACTIONS:
 			f = d->field_pair.into;
 			df = d->field_pair.from;
-- 
2.43.0


From 2311ffa1545ce8e232520e1ff260ebf4688da69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:24 +0000
Subject: [PATCH 042/108] fix: terminate comments ending with a newline

---
 lang.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lang.c b/lang.c
index 15ad2b1..7ae4119 100644
--- a/lang.c
+++ b/lang.c
@@ -226,7 +226,7 @@ print_comment(FILE *f, const char *doc, size_t tabs,
 
 		/* Newline-terminate. */
 
-		if (last != '\n' && fputc('\n', f) == EOF)
+		if (fputc('\n', f) == EOF)
 			return 0;
 	}
 
-- 
2.43.0


From eff5f30502ab61fc502e4cdfd3c56a8aa665978b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:40 +0000
Subject: [PATCH 043/108] fix: do not let comments be closed by their text

---
 lang.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/lang.c b/lang.c
index 7ae4119..e9b19be 100644
--- a/lang.c
+++ b/lang.c
@@ -128,8 +128,7 @@ gen_enum_unique(FILE *f, int defn, const struct field *fd,
  * Generate a (possibly) multi-line comment with "tabs" number of
  * preceding tab spaces.
  * This uses the standard comment syntax as seen in this comment itself.
- * FIXME: make sure that text we're ommitting doesn't clobber the
- * comment epilogue, like having star-slash in the text of a C comment.
+ * A star-slash in the text is split unless in SQL, which has no close.
  */
 static int
 print_comment(FILE *f, const char *doc, size_t tabs, 
@@ -192,6 +191,12 @@ print_comment(FILE *f, const char *doc, size_t tabs,
 			if (*cp  == '\\' && cp[1] == '"')
 				cp++;
 
+			/* Don't close the comment. */
+
+			if (*cp == '/' && last == '*' && *in != '-' &&
+			    fputc(' ', f) == EOF)
+				return 0;
+
 			/*
 			 * If we're starting a word, see whether the
 			 * word will extend beyond our line boundaries.
@@ -262,12 +267,11 @@ gen_comment(FILE *f, size_t tabs, enum cmtt type, const char *cp)
 	/*
 	 * If we're a C comment and are sufficiently small, then print
 	 * us on a one-line comment block.
-	 * FIXME: make sure the comment doesn't have the end-of-comment
-	 * marker itself.
 	 */
 
 	if (type == COMMENT_C && cp != NULL && tabs >= 1 && 
-	    strchr(cp, '\n') == NULL && strlen(cp) < maxcol) {
+	    strchr(cp, '\n') == NULL && strstr(cp, "*/") == NULL &&
+	    strlen(cp) < maxcol) {
 		for (i = 0; i < tabs; i++) 
 			if (fputc('\t', f) == EOF)
 				return 0;
-- 
2.43.0


From fafdf7d4937980587126ebf2742239f3256e29b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:33 +0000
Subject: [PATCH 044/108] fix: accept the separator of files without a first
 file

---
 maindiff.c | 5 ++++-
 sqldiff.c  | 5 ++++-
 xliff.c    | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/maindiff.c b/maindiff.c
index 12d8136..fdc84eb 100644
--- a/maindiff.c
+++ b/maindiff.c
@@ -48,7 +48,10 @@ main(int argc, char *argv[])
 		err(2, "pledge");
 #endif
 
-	if (getopt(argc, argv, "+d") != -1)
+	/* The separator may be first and isn't an option. */
+
+	if (argc > 1 && strcmp(argv[1], "-f") != 0 &&
+	    getopt(argc, argv, "+d") != -1)
 		goto usage;
 
 	argc -= optind;
diff --git a/sqldiff.c b/sqldiff.c
index 33d39fd..a0eb664 100644
--- a/sqldiff.c
+++ b/sqldiff.c
@@ -50,7 +50,10 @@ main(int argc, char *argv[])
 		err(EXIT_FAILURE, "pledge");
 #endif
 
-	while ((c = getopt(argc, argv, "+d")) != -1)
+	/* The separator may be first and isn't an option. */
+
+	while (optind < argc && strcmp(argv[optind], "-f") != 0 &&
+	       (c = getopt(argc, argv, "+d")) != -1)
 		switch (c) {
 		case 'd':
 			destruct = 1;
diff --git a/xliff.c b/xliff.c
index d6e077f..10daf1d 100644
--- a/xliff.c
+++ b/xliff.c
@@ -54,7 +54,10 @@ main(int argc, char *argv[])
 
 	memset(&args, 0, sizeof(struct ort_lang_xliff));
 
-	while ((c = getopt(argc, argv, "+cju")) != -1)
+	/* The separator may be first and isn't an option. */
+
+	while (optind < argc && strcmp(argv[optind], "-x") != 0 &&
+	       (c = getopt(argc, argv, "+cju")) != -1)
 		switch (c) {
 		case 'c':
 			args.flags |= ORT_LANG_XLIFF_COPY;
-- 
2.43.0


From dc388b0a2745bf73f27154b6b7aa096967866789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:06 +0000
Subject: [PATCH 045/108] fix: audit exporting by the noexport of the returned
 structure

---
 audit.c | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/audit.c b/audit.c
index 15b43ec..749d202 100644
--- a/audit.c
+++ b/audit.c
@@ -54,8 +54,22 @@ follow(const struct strct *st, const struct role *r, struct auditq *aq,
 	int			 nexp, c;
 	size_t			 i;
 	const struct field	*fd;
+	const struct rolemap	*rm;
 	char			*newpath;
 
+	/* 
+	 * Regardless of how we got here, we're not exported if all of
+	 * our fields aren't.
+	 */
+
+	TAILQ_FOREACH(rm, &st->rq, entries) 
+		if (rm->type == ROLEMAP_NOEXPORT &&
+		    rm->f == NULL &&
+		    rolemap_has(rm, r)) {
+			exported = 0;
+			break;
+		}
+
 	TAILQ_FOREACH(a, aq, entries)
 		if (a->type == AUDIT_REACHABLE && a->ar.st == st)
 			break;
@@ -166,10 +180,8 @@ ort_audit(const struct role *r, const struct config *cfg)
 	const struct strct	*st, *sst;
 	const struct search	*sr;
 	const struct update	*up;
-	const struct rolemap	*rm;
 	struct audit		*a;
 	struct auditq		*aq = NULL;
-	int			 exported;
 
 	if ((aq = calloc(1, sizeof(struct auditq))) == NULL)
 		goto err;
@@ -177,15 +189,6 @@ ort_audit(const struct role *r, const struct config *cfg)
 	TAILQ_INIT(aq);
 
 	TAILQ_FOREACH(st, &cfg->sq, entries) {
-		exported = 1;
-		TAILQ_FOREACH(rm, &st->rq, entries) 
-			if (rm->type == ROLEMAP_NOEXPORT &&
-			    rm->f == NULL &&
-			    rolemap_has(rm, r)) {
-				exported = 0;
-				break;
-			}
-
 		if (st->ins != NULL &&
 		    rolemap_has(st->ins->rolemap, r)) {
 			a = calloc(1, sizeof(struct audit));
@@ -224,7 +227,7 @@ ort_audit(const struct role *r, const struct config *cfg)
 				a->sr = sr;
 				sst = sr->dst != NULL ? 
 					sr->dst->strct : st;
-				if (!follow(sst, r, aq, sr, exported, NULL))
+				if (!follow(sst, r, aq, sr, 1, NULL))
 					goto err;
 			}
 	}
-- 
2.43.0


From 2e9b7bade3c8edb2b0dad28b2c81a5d5ca387d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:06 +0000
Subject: [PATCH 046/108] fix: passwords are never exported, so audit them as
 such

---
 audit.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/audit.c b/audit.c
index 749d202..2f9772b 100644
--- a/audit.c
+++ b/audit.c
@@ -90,6 +90,7 @@ follow(const struct strct *st, const struct role *r, struct auditq *aq,
 		TAILQ_FOREACH(fd, &st->fq, entries) {
 			a->ar.fds[i].fd = fd;
 			a->ar.fds[i].exported = 
+				fd->type != FTYPE_PASSWORD &&
 				!(fd->flags & FIELD_NOEXPORT) &&
 				!rolemap_has(fd->rolemap, r);
 			i++;
-- 
2.43.0


From 51fa1f9d4e15cf57d03e611015b0353c4f6d25d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:17 +0000
Subject: [PATCH 047/108] fix: escape backslashes and control characters in
 JSON audits

---
 audit-json.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/audit-json.c b/audit-json.c
index 821a596..aa8a6d9 100644
--- a/audit-json.c
+++ b/audit-json.c
@@ -195,6 +195,10 @@ print_doc(const char *cp)
 
 	while ('\0' != (c = *cp++))
 		switch (c) {
+		case ('\\'):
+			/* Double-quotes are already escaped. */
+			fputs(*cp == '"' ? "\\" : "\\\\", stdout);
+			break;
 		case ('\b'):
 			fputs("\\b", stdout);
 			break;
@@ -212,7 +216,7 @@ print_doc(const char *cp)
 			break;
 		default:
 			if ((unsigned char)c < 32)
-				printf("\\u%.4u", c);
+				printf("\\u%.4x", c);
 			else
 				fputc(c, stdout);
 			break;
-- 
2.43.0


From a42ee57e9c2ecbded107dc134af800f4451c2e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:02 +0000
Subject: [PATCH 048/108] fix: define every validator which the C header
 declares

The header declares valid_xxx_yyy for all fields, even those of structure
type which have none, while the source only defined those of enumerations
and of fields with limits (and none for a blob, whose limits were not
checked at all): using the others did not link.
---
 lang-c-header.c |  2 ++
 lang-c-source.c | 21 ++++++++-------------
 2 files changed, 10 insertions(+), 13 deletions(-)

diff --git a/lang-c-header.c b/lang-c-header.c
index a5af397..2c399e9 100644
--- a/lang-c-header.c
+++ b/lang-c-header.c
@@ -874,6 +874,8 @@ gen_valids(FILE *f, const struct config *cfg, const struct strct *p)
 	const struct field	*fd;
 
 	TAILQ_FOREACH(fd, &p->fq, entries) {
+		if (fd->type == FTYPE_STRUCT)
+			continue;
 		if (fputc('\n', f) == EOF)
 			return 0;
 		if (!gen_commentv(f, 0, COMMENT_C,
diff --git a/lang-c-source.c b/lang-c-source.c
index 077b475..bfa4fca 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -2046,9 +2046,8 @@ gen_valids_field(FILE *f,
 
 /*
  * Generate the validation function for the given field.
- * Exceptions: struct fields don't have validators, blob fields always
- * validate, and non-enumerations without limits use the native kcgi(3)
- * validator function.
+ * Exceptions: struct fields don't have validators, and blob fields only
+ * validate their limits (the size), if any.
  * Return zero on failure, non-zero on success.
  */
 static int
@@ -2059,18 +2058,14 @@ gen_valids(FILE *f, const struct strct *p)
 	const struct eitem	*ei;
 
 	TAILQ_FOREACH(fd, &p->fq, entries) {
-		if (fd->type == FTYPE_STRUCT ||
-		    fd->type == FTYPE_BLOB)
-			continue;
-		if (fd->type != FTYPE_ENUM &&
-		    TAILQ_EMPTY(&fd->fvq))
+		if (fd->type == FTYPE_STRUCT)
 			continue;
 
-		assert(validtypes[fd->type] != NULL);
-
 		if (!gen_func_valid(f, fd, 0))
 			return 0;
-		if (fprintf(f, "{\n"
+		if (fputs("{\n", f) == EOF)
+			return 0;
+		if (validtypes[fd->type] != NULL && fprintf(f,
 		    "\tif (!%s(p))\n"
 		    "\t\treturn 0;\n", validtypes[fd->type]) < 0)
 			return 0;
@@ -2762,12 +2757,12 @@ gen_valid(FILE *f, const struct strct *p)
 
 	/*
 	 * Don't generate an entry for structs.
-	 * Blobs always succeed (NULL validator).
+	 * Blobs without limits always succeed (NULL validator).
 	 * Non-enums without limits use the default function.
 	 */
 
 	TAILQ_FOREACH(fd, &p->fq, entries) {
-		if (fd->type == FTYPE_BLOB) {
+		if (fd->type == FTYPE_BLOB && TAILQ_EMPTY(&fd->fvq)) {
 			if (fprintf(f, "\t{ NULL, \"%s-%s\" },\n",
 			    p->name, fd->name) < 0)
 				return 0;
-- 
2.43.0


From fc8a9566c1eabfdd14e68eca701b1e673bdc19bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:22 +0000
Subject: [PATCH 049/108] fix: look up nullable references of all types in the
 C output

The lookup of a structure by a nullable reference bound an integer
whatever the type of the reference, with an accessor which does not exist
for text, real numbers and others, and was emitted for structures which no
query returns, whose functions to fill in are not.
---
 lang-c-source.c | 42 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 7 deletions(-)

diff --git a/lang-c-source.c b/lang-c-source.c
index bfa4fca..696494f 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -1710,10 +1710,40 @@ gen_reffind(FILE *f, const struct config *cfg, const struct strct *p)
 	TAILQ_FOREACH(fd, &p->fq, entries) {
 		if (fd->type != FTYPE_STRUCT)
 			continue;
-		if ((fd->ref->source->flags & FIELD_NULL))
+		if ((fd->ref->source->flags & FIELD_NULL)) {
 			if (fprintf(f, "\tif (p->has_%s) {\n"
-			    "\t\tparm.type = SQLBOX_PARM_INT;\n"
-			    "\t\tparm.iparm = ORT_GET_%s_%s(p);\n"
+			    "\t\tparm.type = %s;\n",
+			    fd->ref->source->name,
+			    bindtypes[fd->ref->source->type]) < 0)
+				return 0;
+			switch (fd->ref->source->type) {
+			case FTYPE_BIT:
+			case FTYPE_BITFIELD:
+			case FTYPE_DATE:
+			case FTYPE_EPOCH:
+			case FTYPE_INT:
+				if (fprintf(f, "\t\tparm.iparm = "
+				    "ORT_GET_%s_%s(p);\n",
+				    fd->ref->source->parent->name,
+				    fd->ref->source->name) < 0)
+					return 0;
+				break;
+			default:
+				if (fprintf(f, "\t\tparm.%s = p->%s;\n",
+				    bindvars[fd->ref->source->type],
+				    fd->ref->source->name) < 0)
+					return 0;
+				break;
+			}
+			if (fputs("\t\tparm.sz = ", f) == EOF)
+				return 0;
+			if (fd->ref->source->type == FTYPE_BLOB) {
+				if (fprintf(f, "p->%s_sz;\n",
+				    fd->ref->source->name) < 0)
+					return 0;
+			} else if (fputs("0;\n", f) == EOF)
+				return 0;
+			if (fprintf(f,
 			    "\t\tif (!sqlbox_prepare_bind_async\n"
 			    "\t\t    (db, 0, STMT_%s_BY_UNIQUE_%s, 1, &parm, 0))\n"
 			    "\t\t\texit(EXIT_FAILURE);\n"
@@ -1724,14 +1754,12 @@ gen_reffind(FILE *f, const struct config *cfg, const struct strct *p)
 			    "\t\t\texit(EXIT_FAILURE);\n"
 			    "\t\tp->has_%s = 1;\n"
 			    "\t}\n",
-			    fd->ref->source->name,
-			    fd->ref->source->parent->name,
-			    fd->ref->source->name,
 			    fd->ref->target->parent->name,
 			    fd->ref->target->name,
 			    fd->ref->target->parent->name,
 			    fd->name, fd->name) < 0)
 				return 0;
+		}
 		if (!(fd->ref->target->parent->flags &
 		    STRCT_HAS_NULLREFS))
 			continue;
@@ -2700,7 +2728,7 @@ gen_functions(FILE *f, const struct config *cfg, const struct strct *p,
 			return 0;
 		if (!gen_unfill_r(f, p))
 			return 0;
-		if (!gen_reffind(f, cfg, p))
+		if (fd != NULL && !gen_reffind(f, cfg, p))
 			return 0;
 		if (!gen_free(f, p))
 			return 0;
-- 
2.43.0


From 7d38094331b06fcdf4090563911130d4b1875c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:41 +0000
Subject: [PATCH 050/108] fix: name a role once when a field is not exported to
 it and an ancestor

The switch over the roles to which a field is not exported in JSON had a
role twice if it and one of its ancestors (or "all") were both named.
---
 lang-c-source.c | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/lang-c-source.c b/lang-c-source.c
index 696494f..e9d3b54 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -254,6 +254,25 @@ gen_role(FILE *f, const struct role *r)
 	return 1;
 }
 
+/*
+ * Whether the role "r" descends from another role in the map, in which
+ * case gen_role() on the other already prints it.
+ * Return zero if it doesn't, non-zero if it does.
+ */
+static int
+role_is_covered(const struct rolemap *rm, const struct role *r)
+{
+	const struct rref	*rs;
+	const struct role	*rp;
+
+	for (rp = r->parent; rp != NULL; rp = rp->parent)
+		TAILQ_FOREACH(rs, &rm->rq, entries)
+			if (rs->role == rp)
+				return 1;
+
+	return 0;
+}
+
 /*
  * Fill an individual field from the database in gen_fill().
  * Return zero on failure, non-zero on success.
@@ -2170,7 +2189,8 @@ gen_json_out_field(FILE *f,
 		    "(p->priv_store)) {\n", f) == EOF)
 			return 0;
 		TAILQ_FOREACH(rs, &fd->rolemap->rq, entries)
-			if (!gen_role(f, rs->role))
+			if (!role_is_covered(fd->rolemap, rs->role) &&
+			    !gen_role(f, rs->role))
 				return 0;
 		if (!gen_comment(f, 2, COMMENT_C,
 		    "Don't export field to noted roles."))
-- 
2.43.0


From f94033a7888625961b75c59c0bcecfaf92d9aa74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:29 +0000
Subject: [PATCH 051/108] fix: bind iterator parameters by their own index

The index of the bound parameter and that of the function's argument were
swapped: after a password (which isn't bound), the wrong arguments were
bound.
---
 lang-c-source.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lang-c-source.c b/lang-c-source.c
index e9d3b54..65076e6 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -546,8 +546,8 @@ gen_iterator(FILE *f, const struct config *cfg,
 				idx, pos, sent->op);
 			if (c < 0)
 				return 0;
-			pos += (size_t)c;
-			idx++;
+			idx += (size_t)c;
+			pos++;
 		}
 
 	/* Prepare and step. */
-- 
2.43.0


From 0e4ad827ff436765fb9ef9e19cd8ae83bb9f7d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:41 +0000
Subject: [PATCH 052/108] fix: type references to references in the C output

Only fields which aren't references have a type of their own in the
header, but a reference whose target is a reference itself was given the
type of its immediate target, which does not exist.
---
 lang-c-header.c  | 12 ++++++------
 lang-c-manpage.c |  4 ++--
 lang-c.c         | 36 +++++++++++++++++++++++++++++++++++-
 lang-c.h         |  2 ++
 4 files changed, 45 insertions(+), 9 deletions(-)

diff --git a/lang-c-header.c b/lang-c-header.c
index 2c399e9..79c8f41 100644
--- a/lang-c-header.c
+++ b/lang-c-header.c
@@ -94,7 +94,7 @@ gen_field(FILE *f, const struct field *fd)
 	case FTYPE_DATE:
 	case FTYPE_EPOCH:
 	case FTYPE_INT:
-		rfd = fd->ref != NULL ? fd->ref->target : fd;
+		rfd = get_typefield(fd);
 		c = fprintf(f, "\t%s_%s\t %s;\n",
 			rfd->parent->name, rfd->name, fd->name);
 		break;
@@ -233,8 +233,8 @@ gen_type_funcs(FILE *f, const struct ort_lang_c *args,
 			 * not the reference.
 			 */
 
-			rfd = fd->ref != NULL ? fd->ref->target : fd;
-			if (fd->ref == NULL &&
+			rfd = get_typefield(fd);
+			if (rfd == fd &&
 			    fprintf(f,
 			    "#define ORT_%s_%s(_src) "
 			     "(%s_%s){ .val = (_src) }\n",
@@ -283,7 +283,7 @@ gen_type_funcs(FILE *f, const struct ort_lang_c *args,
 
 			/* Like above, don't expand references. */
 
-			if (fd->ref == NULL &&
+			if (get_typefield(fd) == fd &&
 			    fprintf(f,
 			    "#define ORT_%s_%s(_src) (_src)\n",
 			    s->name, fd->name) < 0)
@@ -342,7 +342,7 @@ gen_types(FILE *f, const struct ort_lang_c *args,
 					type = "time_t";
 				else
 					type = "int64_t";
-				if (fd->ref == NULL &&
+				if (get_typefield(fd) == fd &&
 				    fprintf(f,
 				    "typedef struct %s_%s "
 				     "{ %s val; } %s_%s;\n",
@@ -366,7 +366,7 @@ gen_types(FILE *f, const struct ort_lang_c *args,
 					type = "time_t";
 				else
 					type = "int64_t";
-				if (fd->ref == NULL &&
+				if (get_typefield(fd) == fd &&
 				    fprintf(f,
 				    "typedef %s %s_%s;\n",
 				    type, s->name, fd->name) < 0)
diff --git a/lang-c-manpage.c b/lang-c-manpage.c
index 4eb8b07..6be945a 100644
--- a/lang-c-manpage.c
+++ b/lang-c-manpage.c
@@ -50,7 +50,7 @@ gen_field_type(FILE *f, const struct field *fd)
 	case FTYPE_DATE:
 	case FTYPE_EPOCH:
 	case FTYPE_INT:
-		rfd = fd->ref != NULL ? fd->ref->target : fd;
+		rfd = get_typefield(fd);
 		c = fprintf(f, "%s_%s", rfd->parent->name, rfd->name);
 		break;
 	default:
@@ -316,7 +316,7 @@ gen_field(FILE *f, const struct field *fd)
 	case FTYPE_DATE:
 	case FTYPE_EPOCH:
 	case FTYPE_INT:
-		rfd = fd->ref != NULL ? fd->ref->target : fd;
+		rfd = get_typefield(fd);
 		c = fprintf(f, "%s_%s %s\n", 
 			rfd->parent->name, rfd->name, fd->name);
 		break;
diff --git a/lang-c.c b/lang-c.c
index 8f3fb64..a332077 100644
--- a/lang-c.c
+++ b/lang-c.c
@@ -110,6 +110,40 @@ get_ftype_str(enum ftype op)
 	return ftypes[op];
 }
 
+/*
+ * Get the field whose type (e.g., "foo_id") is used for "fd".  This is
+ * the field itself or, if it's a reference, the one at the end of its
+ * references.  If these go around in a circle, uses the first in
+ * alphabetic order.
+ */
+const struct field *
+get_typefield(const struct field *fd)
+{
+	const struct field	*slow, *rfd;
+	int			 c;
+
+	for (slow = fd; fd->ref != NULL; slow = slow->ref->target) {
+		if ((fd = fd->ref->target)->ref == NULL)
+			break;
+		if ((fd = fd->ref->target) == slow->ref->target)
+			break;
+	}
+
+	if (fd->ref == NULL)
+		return fd;
+
+	for (slow = fd->ref->target, rfd = fd;
+	     slow != fd; slow = slow->ref->target) {
+		c = strcmp(slow->parent->name, rfd->parent->name);
+		if (c == 0)
+			c = strcmp(slow->name, rfd->name);
+		if (c < 0)
+			rfd = slow;
+	}
+
+	return rfd;
+}
+
 /*
  * Generate the db_open function header.
  * If "decl" is non-zero, this is the declaration; otherwise, the
@@ -305,7 +339,7 @@ print_var(FILE *f, size_t pos, size_t col,
 	case FTYPE_DATE:
 	case FTYPE_EPOCH:
 	case FTYPE_INT:
-		rfd = fd->ref != NULL ? fd->ref->target : fd;
+		rfd = get_typefield(fd);
 		rc = fprintf(f, "%s_%s %sv%zu", 
 			rfd->parent->name, rfd->name,
 			(flags & FIELD_NULL) ?  "*" : "", pos);
diff --git a/lang-c.h b/lang-c.h
index 8bf839b..74e0aef 100644
--- a/lang-c.h
+++ b/lang-c.h
@@ -64,5 +64,7 @@ const char	*get_optype_str(enum optype);
 const char	*get_modtype_str(enum modtype);
 const char	*get_stype_str(enum stype);
 const char	*get_ftype_str(enum ftype);
+const struct field
+	*get_typefield(const struct field *);
 
 #endif /* !LANG_C_H */
-- 
2.43.0


From d0f4fa629cf35316f5f9eb30874d9d3e77a69e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:18 +0000
Subject: [PATCH 053/108] fix: count after limits and distinct rows, and offset
 searches

COUNT(DISTINCT) takes only one column, limits don't apply to the rows
being counted, and an offset made the single result disappear.
Singleton searches ignored their offset.
---
 lang.c | 43 +++++++++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/lang.c b/lang.c
index e9b19be..d7fee5f 100644
--- a/lang.c
+++ b/lang.c
@@ -513,7 +513,7 @@ gen_sql_stmts(FILE *f, size_t tabs,
 	const struct update	*up;
 	const struct uref	*ur;
 	const struct ord	*ord;
-	int			 first, hastrail, needquot, rc;
+	int			 first, hastrail, needquot, nested, rc;
 	size_t			 pos, nc, col, ntabs;
 	char			 delim;
 	const char		*spacer;
@@ -619,15 +619,23 @@ gen_sql_stmts(FILE *f, size_t tabs,
 
 		needquot = 0;
 
-		/* 
+		/*
 		 * Juggle around the possibilities of...
 		 *   select count(*)
-		 *   select count(distinct --gen_sql_stmt_schema--)
+		 *   select count(*) from (select 1)
+		 *   select count(*) from (select distinct
+		 *   	--gen_sql_stmt_schema--)
 		 *   select --gen_sql_stmt_schema--
+		 * The nested queries are because counting follows all
+		 * limits and COUNT(DISTINCT) accepts only one column.
 		 */
 
+		nested = s->type == STYPE_COUNT && (s->dst != NULL ||
+			s->limit > 0 || s->offset > 0);
+
 		if (s->type == STYPE_COUNT) {
-			if ((rc = fprintf(f, "COUNT(")) < 0)
+			if ((rc = fprintf(f, "COUNT(*)%s",
+			    nested ? " FROM (SELECT " : "")) < 0)
 				return 0;
 			col += (size_t)rc;
 		}
@@ -646,14 +654,11 @@ gen_sql_stmts(FILE *f, size_t tabs,
 			    p, 1, p, NULL, &col))
 				return 0;
 			needquot = 1;
-		} else
-			if (fputc('*', f) == EOF)
-				return 0;
+		} else if (nested && fputc('1', f) == EOF)
+			return 0;
 
 		if (needquot && fprintf(f, "%s%c", spacer, delim) < 0)
 			return 0;
-		if (s->type == STYPE_COUNT && fputc(')', f) == EOF)
-			return 0;
 		if (fprintf(f, " FROM %s", p->name) < 0)
 			return 0;
 
@@ -668,7 +673,7 @@ gen_sql_stmts(FILE *f, size_t tabs,
 			(!TAILQ_EMPTY(&s->sntq)) ||
 			(!TAILQ_EMPTY(&s->ordq)) ||
 			(s->type != STYPE_SEARCH && s->limit > 0) ||
-			(s->type != STYPE_SEARCH && s->offset > 0);
+			s->offset > 0;
 		
 		nc = 0;
 		if (!gen_sql_stmt_join
@@ -714,7 +719,7 @@ gen_sql_stmts(FILE *f, size_t tabs,
 			nc = 1;
 		}
 
-		if (!hastrail) {
+		if (!hastrail && !nested) {
 			if (nc == 0 && fputc(delim, f) == EOF)
 				return 0;
 			if (lang == LANG_RUST && fputs("; }", f) == EOF)
@@ -796,12 +801,22 @@ gen_sql_stmts(FILE *f, size_t tabs,
 				return 0;
 		}
 
-		if (STYPE_SEARCH != s->type && s->limit > 0 &&
-		    fprintf(f, " LIMIT %" PRId64, s->limit) < 0)
+		/*
+		 * Singleton searches stop at their first row, but need
+		 * a limit (in SQL syntax) if there's an offset.
+		 */
+
+		if (STYPE_SEARCH != s->type && s->limit > 0) {
+			if (fprintf(f, " LIMIT %" PRId64, s->limit) < 0)
+				return 0;
+		} else if (s->offset > 0 && 
+		    fputs(" LIMIT -1", f) == EOF)
 			return 0;
-		if (STYPE_SEARCH != s->type && s->offset > 0 &&
+		if (s->offset > 0 &&
 		    fprintf(f, " OFFSET %" PRId64, s->offset) < 0)
 			return 0;
+		if (nested && fputc(')', f) == EOF)
+			return 0;
 		if (fputc(delim, f) == EOF)
 			return 0;
 		if (lang == LANG_RUST && fputs("; }", f) == EOF)
-- 
2.43.0


From e5f671f6f722ccfe47b062478baa0497a1ab46ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:54 +0000
Subject: [PATCH 054/108] fix: look for the password in all rows found by a
 search

Only the first row was verified, and a second password of the same
search was verified against memory already freed.
---
 lang-c-source.c | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/lang-c-source.c b/lang-c-source.c
index 65076e6..2efa1de 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -1333,16 +1333,22 @@ gen_search(FILE *f, const struct config *cfg,
 	const struct sent	*sent;
 	const struct strct	*retstr;
 	size_t			 pos, parms = 0, idx;
-	int			 c;
+	int			 c, haspass = 0;
 
 	retstr = s->dst != NULL ? s->dst->strct : s->parent;
 
-	/* Count all possible parameters to bind. */
+	/*
+	 * Count all possible parameters to bind.
+	 * Those that aren't bound are passwords checked afterward.
+	 */
 
 	TAILQ_FOREACH(sent, &s->sntq, entries)
-		if (OPTYPE_ISBINARY(sent->op))
-			parms += count_bind
-				(sent->field->type, sent->op);
+		if (OPTYPE_ISBINARY(sent->op)) {
+			if (count_bind(sent->field->type, sent->op) == 0)
+				haspass = 1;
+			else
+				parms++;
+		}
 
 	if (!gen_func_db_search(f, s, 0))
 		return 0;
@@ -1379,7 +1385,7 @@ gen_search(FILE *f, const struct config *cfg,
 	    "\tif (!sqlbox_prepare_bind_async\n"
 	    "\t    (db, 0, STMT_%s_BY_SEARCH_%zu, %zu, %s, 0))\n"
 	    "\t	exit(EXIT_FAILURE);\n"
-	    "\tif ((res = sqlbox_step(db, 0)) != NULL "
+	    "\t%s ((res = sqlbox_step(db, 0)) != NULL "
 	    "&& res->psz) {\n"
 	    "\t\tp = malloc(sizeof(struct %s));\n"
 	    "\t\tif (p == NULL) {\n"
@@ -1389,6 +1395,7 @@ gen_search(FILE *f, const struct config *cfg,
 	    "\t\tdb_%s_fill_r(ctx, p, res, NULL);\n",
 	    s->parent->name, num, parms,
 	    parms > 0 ? "parms" : "NULL",
+	    haspass ? "while" : "if",
 	    retstr->name, retstr->name) < 0)
 		return 0;
 
@@ -1417,12 +1424,18 @@ gen_search(FILE *f, const struct config *cfg,
 		if (fprintf(f, " {\n"
 		    "\t\t\tdb_%s_free(p);\n"
 		    "\t\t\tp = NULL;\n"
+		    "\t\t\tcontinue;\n"
 		    "\t\t}\n",
 		    s->parent->name) < 0)
 			return 0;
 		pos++;
 	}
 
+	/* Rows failing the password check were skipped: stop here. */
+
+	if (haspass && fputs("\t\tbreak;\n", f) == EOF)
+		return 0;
+
 	return fputs("\t}\n"
 		"\tif (res == NULL)\n"
 		"\t\texit(EXIT_FAILURE);\n"
-- 
2.43.0


From b6378edba086cd1ddb1e646067633c3e07651d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:14 +0000
Subject: [PATCH 055/108] fix: return one row for each group of a grouprow
 query

Rows tied for the maximum or minimum were all returned, and groups
disappeared if their extreme row was excluded by the query's own terms
(or, for sub-structures, wasn't referenced).
---
 lang.c | 83 +++++++++++++++++++++++++---------------------------------
 1 file changed, 36 insertions(+), 47 deletions(-)

diff --git a/lang.c b/lang.c
index d7fee5f..e3c3000 100644
--- a/lang.c
+++ b/lang.c
@@ -680,45 +680,6 @@ gen_sql_stmts(FILE *f, size_t tabs,
 		    (f, ntabs, lang, p, p, NULL, &nc))
 			return 0;
 
-		/* 
-		 * We need to have a special JOIN command for aggregate
-		 * groupings: we LEFT OUTER JOIN the grouped set to
-		 * itself, conditioning upon the aggregate inequality.
-		 * We'll filter NULL joinings in the WHERE statement.
-		 */
-
-		if (NULL != s->aggr && NULL != s->group) {
-			assert(s->aggr->field->parent == 
-			       s->group->field->parent);
-			if (nc == 0 &&
-			    fprintf(f, " %c", delim) < 0)
-				return 0;
-			if (fputc('\n', f) == EOF)
-				return 0;
-			if (!gen_ws(f, ntabs + 1, lang))
-				return 0;
-			if (fprintf(f, 
-			    "%s%cLEFT OUTER JOIN %s as _custom "
-			    "ON %s.%s = _custom.%s "
-			    "AND %s.%s %s _custom.%s %c",
-			    spacer, delim,
-			    s->group->field->parent->name, 
-			    s->group->alias == NULL ?
-			    s->group->field->parent->name : 
-			    s->group->alias->alias,
-			    s->group->field->name, 
-			    s->group->field->name,
-			    s->group->alias == NULL ?
-			    s->group->field->parent->name : 
-			    s->group->alias->alias, 
-			    s->aggr->field->name, 
-			    AGGR_MAXROW == s->aggr->op ?  "<" : ">",
-			    s->aggr->field->name,
-			    delim) < 0)
-				return 0;
-			nc = 1;
-		}
-
 		if (!hastrail && !nested) {
 			if (nc == 0 && fputc(delim, f) == EOF)
 				return 0;
@@ -740,18 +701,33 @@ gen_sql_stmts(FILE *f, size_t tabs,
 
 		first = 1;
 
-		/* 
-		 * If we're grouping, filter out all of the joins that
-		 * failed and aren't part of the results.
+		/*
+		 * If we're grouping, accept only one row of each group.
+		 * This uses that SQLite takes bare columns from the row
+		 * having the maximum or minimum.
+		 * The terms apply to the rows being grouped.
 		 */
 
-		if (s->group != NULL) {
-			if (first && fputs("WHERE", f) == EOF)
+		if (s->aggr != NULL && s->group != NULL) {
+			assert(s->aggr->field->parent ==
+			       s->group->field->parent);
+			if (fprintf(f, "WHERE %s._rowid_ IN "
+			    "(SELECT %s._rowid_ FROM %s",
+			    p->name, p->name, p->name) < 0)
 				return 0;
-			if (fprintf(f, " _custom.%s IS NULL", 
-			    s->group->field->name) < 0)
+			nc = 0;
+			if (!gen_sql_stmt_join
+			    (f, ntabs, lang, p, p, NULL, &nc))
+				return 0;
+			if (nc > 0) {
+				if (fputc('\n', f) == EOF)
+					return 0;
+				if (!gen_ws(f, ntabs + 1, lang))
+					return 0;
+				if (fprintf(f, "%s%c", spacer, delim) < 0)
+					return 0;
+			} else if (fputc(' ', f) == EOF)
 				return 0;
-			first = 0;
 		}
 
 		/* Continue with our proper WHERE clauses. */
@@ -784,6 +760,19 @@ gen_sql_stmts(FILE *f, size_t tabs,
 			}
 		}
 
+		if (s->aggr != NULL && s->group != NULL)
+			if (fprintf(f, "%sGROUP BY %s.%s "
+			    "HAVING %s(%s.%s) NOTNULL)",
+			    first ? "" : " ",
+			    s->group->alias == NULL ?
+			    p->name : s->group->alias->alias,
+			    s->group->field->name,
+			    s->aggr->op == AGGR_MAXROW ? "MAX" : "MIN",
+			    s->aggr->alias == NULL ?
+			    p->name : s->aggr->alias->alias,
+			    s->aggr->field->name) < 0)
+				return 0;
+
 		first = 1;
 		if (!TAILQ_EMPTY(&s->ordq) &&
 		    fputs(" ORDER BY ", f) == EOF)
-- 
2.43.0


From 3a88e409f6e0f7f784f9adafa25c432a39a4415c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:40 +0000
Subject: [PATCH 056/108] fix: let any role but the default drop to none in the
 C output

---
 lang-c-source.c | 22 +++-------------------
 1 file changed, 3 insertions(+), 19 deletions(-)

diff --git a/lang-c-source.c b/lang-c-source.c
index 2efa1de..63bde4b 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -1099,26 +1099,10 @@ gen_func_rolecases(FILE *f, const struct role *r)
 	if (fprintf(f, "\tcase ROLE_%s:\n", r->name) < 0)
 		return 0;
 
-	/*
-	 * If our parent is "all", then there's nowhere we can
-	 * transition into, as we can only transition "up" the tree of
-	 * roles (i.e., into roles with less specific privileges).
-	 * Thus, every attempt to transition should fail.
-	 */
-
-	if (0 == strcmp(r->parent->name, "all")) {
-		if (fputs("\t\tabort();\n"
-		    "\t\t/* NOTREACHED */\n", f) == EOF)
-			return 0;
-		TAILQ_FOREACH(rr, &r->subrq, entries)
-			if (!gen_func_rolecases(f, rr))
-				return 0;
-		return 1;
-	}
-
-	/* Here, we can transition into lesser privileges. */
+	/* Here, we can transition into lesser privileges or nothing. */
 
-	if (fputs("\t\tswitch (r) {\n", f) == EOF)
+	if (fputs("\t\tswitch (r) {\n"
+	    "\t\tcase ROLE_none:\n", f) == EOF)
 		return 0;
 
 	for (rp = r->parent; strcmp(rp->name, "all"); rp = rp->parent)
-- 
2.43.0


From bb7bd676bc12410de50183e0158e6aa2b985f4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:03 +0000
Subject: [PATCH 057/108] fix: let the default role fetch nullable references
 in the C output

---
 lang-c-source.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lang-c-source.c b/lang-c-source.c
index 63bde4b..780227c 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -840,6 +840,10 @@ gen_roles(FILE *f, const struct config *cfg, const struct strct *p)
 			if (asprintf(&buf, "STMT_%s_BY_UNIQUE_%s",
 			    p->name, fd->name) < 0)
 				return -1;
+			if (fprintf(f, "\tif (!sqlbox_role_hier_stmt"
+			    "(hier, ROLE_default, %s))\n"
+			    "\t\tgoto err;\n", buf) < 0)
+				return -1;
 			if (!gen_role_stmt_all(f, cfg, buf))
 				return -1;
 			shown++;
-- 
2.43.0


From 5a3d25e2e60c269e716801f9d2a0e4de5b44778d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:03 +0000
Subject: [PATCH 058/108] fix: refuse malformed numbers when importing JSON in
 the C output

---
 jsmn.c          | 21 +++++++++------------
 lang-c-source.c |  1 +
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/jsmn.c b/jsmn.c
index cb0b249..d2ff6f6 100644
--- a/jsmn.c
+++ b/jsmn.c
@@ -317,35 +317,32 @@ jsmn_eq(const char *json, const jsmntok_t *tok, const char *s)
 static int
 jsmn_parse_real(const char *buf, size_t sz, double *ret)
 {
-	char 	 tmp[128];
-	int	 rc;
+	char 	 tmp[128], *ep;
 
-	if (sz > sizeof(tmp) - 1)
+	if (sz == 0 || sz > sizeof(tmp) - 1)
 		return 0;
 
 	memcpy(tmp, buf, sz);
 	tmp[sz] = '\0';
 
-	if ((rc = sscanf(tmp, "%lf", ret)) == -1)
-		return -1;
+	*ret = strtod(tmp, &ep);
 
-	return 1 == rc;
+	return ep == tmp + sz;
 }
 
 static int
 jsmn_parse_int(const char *buf, size_t sz, int64_t *ret)
 {
-	char 	 tmp[32];
-	int	 rc;
+	char 	 tmp[32], *ep;
 
-	if (sz > sizeof(tmp) - 1)
+	if (sz == 0 || sz > sizeof(tmp) - 1)
 		return 0;
 
 	memcpy(tmp, buf, sz);
 	tmp[sz] = '\0';
 
-	if ((rc = sscanf(tmp, "%" SCNd64, ret)) == -1)
-		return -1;
+	errno = 0;
+	*ret = strtoll(tmp, &ep, 10);
 
-	return 1 == rc;
+	return ep == tmp + sz && errno != ERANGE;
 }
diff --git a/lang-c-source.c b/lang-c-source.c
index 780227c..21bad03 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -2942,6 +2942,7 @@ ort_lang_c_source(const struct ort_lang_c *args,
 	if (args->flags & ORT_LANG_C_JSON_JSMN)
 		if (fputs(
 		    "#include <ctype.h>\n"
+		    "#include <errno.h>\n"
 		    "#include <inttypes.h>\n", f) == EOF)
 			return 0;
 
-- 
2.43.0


From 004793d3ee2b0fae6f6aef27ab1d48626edf3843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:03 +0000
Subject: [PATCH 059/108] fix: keep within the tokens when importing JSON in
 the C output

---
 lang-c-source.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lang-c-source.c b/lang-c-source.c
index 21bad03..a4696f2 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -2332,7 +2332,9 @@ gen_json_parse(FILE *f, const struct strct *p)
 	if (fputs("\n"
 	    "\tif (toksz < 1 || t[0].type != JSMN_OBJECT)\n"
 	    "\t\treturn 0;\n\n"
-	    "\tfor (i = 0, j = 0; i < t[0].size; i++) {\n", f) == EOF)
+	    "\tfor (i = 0, j = 0; i < t[0].size; i++) {\n"
+	    "\t\tif (j + 2 >= toksz)\n"
+	    "\t\t\treturn 0;\n", f) == EOF)
 		return 0;
 
 	TAILQ_FOREACH(fd, &p->fq, entries) {
@@ -2479,7 +2481,7 @@ gen_json_parse(FILE *f, const struct strct *p)
 		case FTYPE_STRUCT:
 			if (fprintf(f, "\t\t\trc = jsmn_%s\n"
 			    "\t\t\t\t(&p->%s, buf,\n"
-			    "\t\t\t\t &t[j+1], toksz - j);\n"
+			    "\t\t\t\t &t[j+1], toksz - j - 1);\n"
 			    "\t\t\tif (rc <= 0)\n"
 			    "\t\t\t\treturn rc;\n"
 			    "\t\t\tj += rc;\n",
@@ -2576,7 +2578,7 @@ gen_json_parse(FILE *f, const struct strct *p)
 	    "\t\treturn -1;\n"
 	    "\n"
 	    "\tfor (i = j = 0; i < *sz; i++) {\n"
-	    "\t\trc = jsmn_%s(&(*p)[i], buf, &t[j+1], toksz - j);\n"
+	    "\t\trc = jsmn_%s(&(*p)[i], buf, &t[j+1], toksz - j - 1);\n"
 	    "\t\tif (rc <= 0)\n"
 	    "\t\t\treturn rc;\n"
 	    "\t\tj += rc;\n"
-- 
2.43.0


From e68f9ab7c33a0d1c06116a99e368cf40bc9f3ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:21 +0000
Subject: [PATCH 060/108] fix: import null structures from JSON in the C output

---
 lang-c-source.c | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/lang-c-source.c b/lang-c-source.c
index a4696f2..c5d64b5 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -2347,7 +2347,9 @@ gen_json_parse(FILE *f, const struct strct *p)
 
 		/* Check correct kind of token. */
 
-		if ((fd->flags & FIELD_NULL) && fprintf
+		if (((fd->flags & FIELD_NULL) ||
+		     (fd->type == FTYPE_STRUCT &&
+		      (fd->ref->source->flags & FIELD_NULL))) && fprintf
 		    (f, "\t\t\tif (t[j+1].type == "
 		     "JSMN_PRIMITIVE &&\n"
 		     "\t\t\t    buf[t[j+1].start] == \'n\') {\n"
@@ -2529,15 +2531,6 @@ gen_json_parse(FILE *f, const struct strct *p)
 				return 0;
 			break;
 		case FTYPE_STRUCT:
-			if (fd->ref->source->flags & FIELD_NULL) {
-				if (fprintf(f, "\tif (p->has_%s)\n"
-			            "\t\tjsmn_%s_clear(&p->%s);\n",
-				    fd->ref->source->name,
-				    fd->ref->target->parent->name,
-				    fd->name) < 0)
-					return 0;
-				break;
-			}
 			if (fprintf(f, "\tjsmn_%s_clear(&p->%s);\n",
 			    fd->ref->target->parent->name,
 			    fd->name) < 0)
-- 
2.43.0


From cac36b843bba1bc58fa5674708f05fec7caac282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:50 +0000
Subject: [PATCH 061/108] fix: decode strings when importing JSON in the C
 output

---
 jsmn.c          | 94 +++++++++++++++++++++++++++++++++++++++++++++++++
 lang-c-source.c | 47 +++++++++++++++----------
 2 files changed, 122 insertions(+), 19 deletions(-)

diff --git a/jsmn.c b/jsmn.c
index d2ff6f6..481dbcc 100644
--- a/jsmn.c
+++ b/jsmn.c
@@ -346,3 +346,97 @@ jsmn_parse_int(const char *buf, size_t sz, int64_t *ret)
 
 	return ep == tmp + sz && errno != ERANGE;
 }
+
+/*
+ * Copy the string token contents "buf" of length "sz" into "ret", which
+ * is freed beforehand, replacing escape sequences.
+ * Return less than zero on allocation failure, zero on malformed
+ * contents, and greater than zero on success.
+ */
+static int
+jsmn_parse_text(const char *buf, size_t sz, char **ret)
+{
+	size_t		 i, k, n = 0;
+	unsigned long	 c, lo;
+	char		 hex[5], *cp;
+
+	free(*ret);
+	if ((*ret = cp = malloc(sz + 1)) == NULL)
+		return -1;
+	cp[0] = hex[4] = '\0';
+
+	for (i = 0; i < sz; i++) {
+		if (buf[i] != '\\') {
+			cp[n++] = buf[i];
+			continue;
+		}
+		if (++i == sz)
+			return 0;
+		switch (buf[i]) {
+		case 'b':
+			cp[n++] = '\b';
+			continue;
+		case 'f':
+			cp[n++] = '\f';
+			continue;
+		case 'n':
+			cp[n++] = '\n';
+			continue;
+		case 'r':
+			cp[n++] = '\r';
+			continue;
+		case 't':
+			cp[n++] = '\t';
+			continue;
+		case 'u':
+			break;
+		default:
+			cp[n++] = buf[i];
+			continue;
+		}
+
+		/* Unicode: up to two parts, encoded as UTF-8. */
+
+		for (k = 0, c = 0; k < 2; k++) {
+			if (sz - i < 5)
+				return 0;
+			memcpy(hex, buf + i + 1, 4);
+			lo = strtoul(hex, NULL, 16);
+			i += 4;
+			if (k == 0 && lo >= 0xd800 && lo < 0xdc00) {
+				c = 0x10000 + ((lo - 0xd800) << 10);
+				if (sz - i < 3 || 
+				    buf[i + 1] != '\\' || 
+				    buf[i + 2] != 'u')
+					return 0;
+				i += 2;
+				continue;
+			}
+			if ((k == 1) != (lo >= 0xdc00 && lo < 0xe000))
+				return 0;
+			c += k == 1 ? lo - 0xdc00 : lo;
+			break;
+		}
+
+		if (c == 0 || k == 2)
+			return 0;
+		if (c < 0x80)
+			cp[n++] = c;
+		else if (c < 0x800) {
+			cp[n++] = 0xc0 | (c >> 6);
+			cp[n++] = 0x80 | (c & 0x3f);
+		} else if (c < 0x10000) {
+			cp[n++] = 0xe0 | (c >> 12);
+			cp[n++] = 0x80 | ((c >> 6) & 0x3f);
+			cp[n++] = 0x80 | (c & 0x3f);
+		} else {
+			cp[n++] = 0xf0 | (c >> 18);
+			cp[n++] = 0x80 | ((c >> 12) & 0x3f);
+			cp[n++] = 0x80 | ((c >> 6) & 0x3f);
+			cp[n++] = 0x80 | (c & 0x3f);
+		}
+	}
+
+	cp[n] = '\0';
+	return 1;
+}
diff --git a/lang-c-source.c b/lang-c-source.c
index c5d64b5..dd2e737 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -2289,7 +2289,7 @@ gen_json_parse(FILE *f, const struct strct *p)
 {
 	const struct field	*fd;
 	int			 intcast = 0, hasstruct = 0,
-				 hasblob = 0;
+				 hasblob = 0, hastext = 0;
 
 	/* Whether we need conversion space. */
 
@@ -2311,6 +2311,11 @@ gen_json_parse(FILE *f, const struct strct *p)
 		case FTYPE_STRUCT:
 			hasstruct = 1;
 			break;
+		case FTYPE_EMAIL:
+		case FTYPE_PASSWORD:
+		case FTYPE_TEXT:
+			hastext = 1;
+			break;
 		default:
 			break;
 		}
@@ -2324,7 +2329,7 @@ gen_json_parse(FILE *f, const struct strct *p)
 		return 0;
 	if (intcast && fputs("\tint64_t tmpint;\n", f) == EOF)
 		return 0;
-	if ((hasblob || hasstruct) && fputs("\tint rc;\n", f) == EOF)
+	if ((hasblob || hasstruct || hastext) && fputs("\tint rc;\n", f) == EOF)
 		return 0;
 	if (hasblob && fputs("\tchar *tmpbuf;\n", f) == EOF)
 		return 0;
@@ -2447,37 +2452,41 @@ gen_json_parse(FILE *f, const struct strct *p)
 				return 0;
 			break;
 		case FTYPE_BLOB:
-			if (fprintf(f, "\t\t\ttmpbuf = strndup\n"
-			    "\t\t\t\t(buf + t[j+1].start,\n"
-			    "\t\t\t\t t[j+1].end - t[j+1].start);\n"
-			    "\t\t\tif (tmpbuf == NULL)\n"
-			    "\t\t\t\treturn -1;\n"
-			    "\t\t\tp->%s = malloc((t[j+1].end - "
-			    "t[j+1].start) + 1);\n"
+			if (fprintf(f, "\t\t\ttmpbuf = NULL;\n"
+			    "\t\t\trc = jsmn_parse_text("
+			    "buf + t[j+1].start,\n"
+			    "\t\t\t    t[j+1].end - t[j+1].start, "
+			    "&tmpbuf);\n"
+			    "\t\t\tif (rc <= 0) {\n"
+			    "\t\t\t\tfree(tmpbuf);\n"
+			    "\t\t\t\treturn rc;\n"
+			    "\t\t\t}\n"
+			    "\t\t\tfree(p->%s);\n"
+			    "\t\t\tp->%s = malloc(strlen(tmpbuf) + 1);\n"
 			    "\t\t\tif (p->%s == NULL) {\n"
 			    "\t\t\t\tfree(tmpbuf);\n"
 			    "\t\t\t\treturn -1;\n"
 			    "\t\t\t}\n"
 			    "\t\t\trc = b64_pton(tmpbuf, p->%s,\n"
-			    "\t\t\t\t(t[j+1].end - t[j+1].start) + 1);\n"
+			    "\t\t\t\tstrlen(tmpbuf) + 1);\n"
 			    "\t\t\tfree(tmpbuf);\n"
 			    "\t\t\tif (rc < 0)\n"
-			    "\t\t\t\treturn -1;\n"
+			    "\t\t\t\treturn 0;\n"
 			    "\t\t\tp->%s_sz = rc;\n"
 			    "\t\t\tj++;\n", fd->name, fd->name,
-			    fd->name, fd->name) < 0)
+			    fd->name, fd->name, fd->name) < 0)
 				return 0;
 			break;
 		case FTYPE_TEXT:
 		case FTYPE_PASSWORD:
 		case FTYPE_EMAIL:
-			if (fprintf(f, "\t\t\tp->%s = strndup\n"
-			    "\t\t\t\t(buf + t[j+1].start,\n"
-			    "\t\t\t\t t[j+1].end - t[j+1].start);\n"
-			    "\t\t\tif (p->%s == NULL)\n"
-			    "\t\t\t\treturn -1;\n"
-			    "\t\t\tj++;\n",
-			    fd->name, fd->name) < 0)
+			if (fprintf(f, "\t\t\trc = jsmn_parse_text("
+			    "buf + t[j+1].start,\n"
+			    "\t\t\t    t[j+1].end - t[j+1].start, "
+			    "&p->%s);\n"
+			    "\t\t\tif (rc <= 0)\n"
+			    "\t\t\t\treturn rc;\n"
+			    "\t\t\tj++;\n", fd->name) < 0)
 				return 0;
 			break;
 		case FTYPE_STRUCT:
-- 
2.43.0


From 4d4301847b78113f8985453a95759d4da4d2a44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:38 +0000
Subject: [PATCH 062/108] fix: print real limits in full in the C validators

---
 lang-c-source.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lang-c-source.c b/lang-c-source.c
index dd2e737..fcbc2a0 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -2075,7 +2075,7 @@ gen_valids_field(FILE *f,
 		break;
 	case FTYPE_REAL:
 		if (fprintf(f,
-		    "\tif (p->parsed.d %s %g)\n"
+		    "\tif (p->parsed.d %s %.17g)\n"
 		    "\t\treturn 0;\n",
 		    validbins[v->type], v->d.value.decimal) < 0)
 			return 0;
-- 
2.43.0


From 6c8ee827932dbc6df3709482d8eac7370cad2601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:23 +0000
Subject: [PATCH 063/108] fix: open immediate and exclusive transactions in the
 Node.js output

---
 lang-nodejs.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lang-nodejs.c b/lang-nodejs.c
index 778be6d..673e7f3 100644
--- a/lang-nodejs.c
+++ b/lang-nodejs.c
@@ -2153,7 +2153,7 @@ gen_ortctx(const struct ort_lang_nodejs *args,
 		return 0;
 	if (fputs("\tdb_trans_open_immediate(id: number): void\n"
 	    "\t{\n"
-	    "\t\tthis.#o.db.exec(\'BEGIN TRANSACTION IMMEDIATE\');\n"
+	    "\t\tthis.#o.db.exec(\'BEGIN IMMEDIATE TRANSACTION\');\n"
 	    "\t}\n\n", f) == EOF)
 		return 0;
 
@@ -2168,7 +2168,7 @@ gen_ortctx(const struct ort_lang_nodejs *args,
 		return 0;
 	if (fputs("\tdb_trans_open_deferred(id: number): void\n"
 	    "\t{\n"
-	    "\t\tthis.#o.db.exec(\'BEGIN TRANSACTION DEFERRED\');\n"
+	    "\t\tthis.#o.db.exec(\'BEGIN DEFERRED TRANSACTION\');\n"
 	    "\t}\n\n", f) == EOF)
 		return 0;
 
@@ -2181,7 +2181,7 @@ gen_ortctx(const struct ort_lang_nodejs *args,
 		return 0;
 	if (fputs("\tdb_trans_open_exclusive(id: number): void\n"
 	    "\t{\n"
-	    "\t\tthis.#o.db.exec(\'BEGIN TRANSACTION EXCLUSIVE\');\n"
+	    "\t\tthis.#o.db.exec(\'BEGIN EXCLUSIVE TRANSACTION\');\n"
 	    "\t}\n\n", f) == EOF)
 		return 0;
 
-- 
2.43.0


From 0a223d91efce54bd1420735f8667972f09e984be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:23 +0000
Subject: [PATCH 064/108] fix: type of the arguments of ort() in the Node.js
 output

---
 lang-nodejs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lang-nodejs.c b/lang-nodejs.c
index 673e7f3..810a61b 100644
--- a/lang-nodejs.c
+++ b/lang-nodejs.c
@@ -2282,7 +2282,7 @@ ort_lang_nodejs(const struct ort_lang_nodejs *args,
 		    fputs("export ", f) == EOF)
 			return 0;
 		if (fputs
-		    ("function ort(dbname: string, args?: optargs): ortdb\n"
+		    ("function ort(dbname: string, args?: ortargs): ortdb\n"
 		     "{\n"
 		     "\treturn new ortdb(dbname, args);\n"
 		     "}\n", f) == EOF)
-- 
2.43.0


From 146e68e08c3c2b0b406fbbe560d7868c76e82fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:40 +0000
Subject: [PATCH 065/108] fix: type of caught exceptions in the Node.js output

---
 lang-nodejs.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lang-nodejs.c b/lang-nodejs.c
index 810a61b..f26bac9 100644
--- a/lang-nodejs.c
+++ b/lang-nodejs.c
@@ -529,7 +529,7 @@ gen_insert(FILE *f, const struct strct *p)
 	return fputs("\n"
 	     "\t\ttry {\n"
 	     "\t\t\tinfo = stmt.run(parms);\n"
-	     "\t\t} catch (er) {\n"
+	     "\t\t} catch (er: any) {\n"
 	     "\t\t\tif (er.code === 'SQLITE_CONSTRAINT_UNIQUE' ||\n"
 	     "\t\t\t    er.code === 'SQLITE_CONSTRAINT_FOREIGNKEY')\n"
 	     "\t\t\t\treturn BigInt(-1);\n"
@@ -824,7 +824,7 @@ gen_update(FILE *f, const struct config *cfg,
 		if (fputs("\n"
 		    "\t\ttry {\n"
 		    "\t\t\tinfo = stmt.run(parms);\n"
-		    "\t\t} catch (er) {\n"
+		    "\t\t} catch (er: any) {\n"
 		    "\t\t\tif (er.code === 'SQLITE_CONSTRAINT_UNIQUE' ||\n"
 		    "\t\t\t    er.code === 'SQLITE_CONSTRAINT_FOREIGNKEY')\n"
 		    "\t\t\t\treturn false;\n"
-- 
2.43.0


From 949acff01c240f9fe27db0bf6ea4c3923813a9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:54 +0000
Subject: [PATCH 066/108] fix: quote the empty string when concatenating in the
 Node.js output

---
 lang.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lang.c b/lang.c
index e3c3000..f865f3d 100644
--- a/lang.c
+++ b/lang.c
@@ -992,6 +992,8 @@ gen_sql_stmts(FILE *f, size_t tabs,
 
 				if ((ur->field->flags & FIELD_NULL)) {
 					if (fprintf(f, 
+					    lang == LANG_JS ?
+					    "COALESCE(%s,\\'\\')" :
 					    "COALESCE(%s,'')",
 					    ur->field->name) < 0)
 						return 0;
-- 
2.43.0


From e6b80b5f0558b8041124c0db3b257cfb88e52ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:32 +0000
Subject: [PATCH 067/108] fix: look for the password in all rows found by a
 search in the Node.js output

---
 lang-nodejs.c | 58 ++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 44 insertions(+), 14 deletions(-)

diff --git a/lang-nodejs.c b/lang-nodejs.c
index f26bac9..45b4b92 100644
--- a/lang-nodejs.c
+++ b/lang-nodejs.c
@@ -866,13 +866,12 @@ gen_checkpass(FILE *f, size_t pos, const char *name,
 }
 
 /*
- * Generate the check for a query's passwords, with failure in the check
- * returning null or continuing based upon whether "ret" is TRUE.
+ * Generate the check for a query's passwords within a loop over rows,
+ * with failure in the check continuing to the next row.
  * Returns FALSE on failure, TRUE on success.
- * FIXME: this is hard-coded for two tabs.
  */
 static int
-gen_query_checkpass(FILE *f, const struct search *s, int ret)
+gen_query_checkpass(FILE *f, const struct search *s)
 {
 	size_t		 	 pos = 1;
 	const struct sent	*sent;
@@ -887,16 +886,12 @@ gen_query_checkpass(FILE *f, const struct search *s, int ret)
 			pos++;
 			continue;
 		}
-		if (fputs("\t\tif ", f) == EOF)
+		if (fputs("\t\t\tif ", f) == EOF)
 			return 0;
 		if (!gen_checkpass(f, pos, sent->fname,
 		    sent->op, sent->field))
 			return 0;
-		if (ret &&
-		    fprintf(f, "\n\t\t\treturn null;\n") < 0)
-			return 0;
-		if (!ret &&
-		    fprintf(f, "\n\t\t\tcontinue;\n") < 0)
+		if (fputs("\n\t\t\t\tcontinue;\n", f) == EOF)
 			return 0;
 		pos++;
 	}
@@ -914,7 +909,7 @@ gen_query(FILE *f, const struct config *cfg,
 	const struct sent	*sent;
 	const struct strct	*rs;
 	size_t			 pos, col, sz;
-	int		 	 hasunary = 0, rc;
+	int		 	 hasunary = 0, haspass = 0, rc;
 
 	/*
 	 * The "real struct" we'll return is either ourselves or the one
@@ -1194,8 +1189,42 @@ gen_query(FILE *f, const struct config *cfg,
 	if (pos > 1 && fputc('\n', f) == EOF)
 		return 0;
 
+	/*
+	 * A hashed password is checked after having extracted the row,
+	 * so a search with one must look through all matching rows for
+	 * the first whose password verifies.
+	 */
+
+	TAILQ_FOREACH(sent, &s->sntq, entries)
+		if (sent->field->type == FTYPE_PASSWORD &&
+		    !OPTYPE_ISUNARY(sent->op) &&
+		    sent->op != OPTYPE_STREQ &&
+		    sent->op != OPTYPE_STRNEQ)
+			haspass = 1;
+
 	switch (s->type) {
 	case STYPE_SEARCH:
+		if (haspass) {
+			if (fprintf(f,
+			    "\t\tfor (const cols of stmt.iterate(parms)) {\n"
+			    "\t\t\tconst obj: ortns.%sData =\n"
+			    "\t\t\t\tthis.db_%s_fill"
+			    "({row: <any>cols, pos: 0});\n",
+			    rs->name, rs->name) < 0)
+				return 0;
+			if (rs->flags & STRCT_HAS_NULLREFS)
+				if (fprintf(f, "\t\t\tthis.db_%s_reffind"
+				    "(this.#o, obj);\n", rs->name) < 0)
+					return 0;
+			if (!gen_query_checkpass(f, s))
+				return 0;
+			if (fprintf(f, "\t\t\treturn new "
+			    "ortns.%s(this.#role, obj);\n"
+			    "\t\t}\n"
+			    "\t\treturn null;\n", rs->name) < 0)
+				return 0;
+			break;
+		}
 		if (fprintf(f,
 		    "\t\tconst cols: any = stmt.get(parms);\n"
 		    "\n"
@@ -1210,7 +1239,6 @@ gen_query(FILE *f, const struct config *cfg,
 		       if (fprintf(f, "\t\tthis.db_%s_reffind"
 			   "(this.#o, obj);\n", rs->name) < 0)
 			       return 0;
-		gen_query_checkpass(f, s, 1);
 		if (fprintf(f, "\t\treturn new "
 	  	    "ortns.%s(this.#role, obj);\n", rs->name) < 0)
 			return 0;
@@ -1227,7 +1255,8 @@ gen_query(FILE *f, const struct config *cfg,
 			if (fprintf(f, "\t\t\tthis.db_%s_reffind"
 			    "(this.#o, obj);\n", rs->name) < 0)
 				return 0;
-		gen_query_checkpass(f, s, 0);
+		if (!gen_query_checkpass(f, s))
+			return 0;
 		if (fprintf(f, 
 		    "\t\t\tcb(new ortns.%s(this.#role, obj));\n"
 		    "\t\t}\n", rs->name) < 0)
@@ -1249,7 +1278,8 @@ gen_query(FILE *f, const struct config *cfg,
 			if (fprintf(f, "\t\t\tthis.db_%s_reffind"
 			    "(this.#o, obj);\n", rs->name) < 0)
 				return 0;
-		gen_query_checkpass(f, s, 0);
+		if (!gen_query_checkpass(f, s))
+			return 0;
 		if (fprintf(f, 
 		    "\t\t\tobjs.push(new ortns.%s(this.#role, obj));\n"
 		    "\t\t}\n"
-- 
2.43.0


From c2f6deeb76452b39d9400373292164522d9e973b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:29 +0000
Subject: [PATCH 068/108] fix: report all constraint violations in the Node.js
 output

---
 lang-nodejs.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lang-nodejs.c b/lang-nodejs.c
index 45b4b92..8cfcd05 100644
--- a/lang-nodejs.c
+++ b/lang-nodejs.c
@@ -530,8 +530,8 @@ gen_insert(FILE *f, const struct strct *p)
 	     "\t\ttry {\n"
 	     "\t\t\tinfo = stmt.run(parms);\n"
 	     "\t\t} catch (er: any) {\n"
-	     "\t\t\tif (er.code === 'SQLITE_CONSTRAINT_UNIQUE' ||\n"
-	     "\t\t\t    er.code === 'SQLITE_CONSTRAINT_FOREIGNKEY')\n"
+	     "\t\t\tif (typeof er.code === 'string' &&\n"
+	     "\t\t\t    er.code.startsWith('SQLITE_CONSTRAINT'))\n"
 	     "\t\t\t\treturn BigInt(-1);\n"
 	     "\t\t\tthrow er;\n"
 	     "\t\t}\n"
@@ -825,8 +825,8 @@ gen_update(FILE *f, const struct config *cfg,
 		    "\t\ttry {\n"
 		    "\t\t\tinfo = stmt.run(parms);\n"
 		    "\t\t} catch (er: any) {\n"
-		    "\t\t\tif (er.code === 'SQLITE_CONSTRAINT_UNIQUE' ||\n"
-		    "\t\t\t    er.code === 'SQLITE_CONSTRAINT_FOREIGNKEY')\n"
+		    "\t\t\tif (typeof er.code === 'string' &&\n"
+		    "\t\t\t    er.code.startsWith('SQLITE_CONSTRAINT'))\n"
 		    "\t\t\t\treturn false;\n"
 		    "\t\t\tthrow er;\n"
 		    "\t\t}\n"
-- 
2.43.0


From a969995e55552e95b80c0920bda88c5205364a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:01 +0000
Subject: [PATCH 069/108] fix: allow transition only to ancestor roles or none
 in the Node.js output

---
 lang-nodejs.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/lang-nodejs.c b/lang-nodejs.c
index 8cfcd05..45a8d4d 100644
--- a/lang-nodejs.c
+++ b/lang-nodejs.c
@@ -2009,9 +2009,9 @@ gen_alias_builder(FILE *f, const struct strct *p)
 }
 
 /*
- * Generate all of the possible transitions from the given role into all
- * possible roles, then all of the transitions from the roles "beneath"
- * the current role.
+ * Generate all of the possible transitions from the given role, which
+ * may be into its ancestors (except for "all") or "none", then all of
+ * the transitions from the roles "beneath" the current role.
  * Return zero on failure, non-zero on success.
  */
 static int
@@ -2020,11 +2020,15 @@ gen_ortctx_dbrole_role(FILE *f, const struct role *r)
 	const struct role	*rr;
 
 	if (fprintf(f, "\t\tcase '%s':\n"
-	    "\t\t\tswitch(newrole) {\n", r->name) < 0)
+	    "\t\t\tswitch(newrole) {\n"
+	    "\t\t\tcase 'none':\n", r->name) < 0)
 		return 0;
 
-	if (!gen_role(f, r, 3))
-		return 0;
+	for (rr = r->parent; rr != NULL; rr = rr->parent)
+		if (strcmp(rr->name, "all") &&
+		    fprintf(f, "\t\t\tcase '%s':\n", rr->name) < 0)
+			return 0;
+
 	if (fputs("\t\t\t\tthis.#role = newrole;\n"
 	    "\t\t\t\treturn;\n"
 	    "\t\t\tdefault:\n"
-- 
2.43.0


From 2e029adb4fd3f7c507e06348d4915664123b3a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:25 +0000
Subject: [PATCH 070/108] fix: deny operations without any role in the Node.js
 output

---
 lang-nodejs.c | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/lang-nodejs.c b/lang-nodejs.c
index 45a8d4d..f7ec65c 100644
--- a/lang-nodejs.c
+++ b/lang-nodejs.c
@@ -168,26 +168,30 @@ gen_role(FILE *f, const struct role *r, size_t tabs)
 
 /*
  * Recursively generate all roles allowed by this rolemap.
+ * If roles are enabled and there are none, no role is allowed.
  * Return <0 on failure, >0 if we wrote something, 0 otherwise.
  */
 static int
-gen_rolemap(FILE *f, const struct rolemap *rm)
+gen_rolemap(FILE *f, const struct config *cfg, const struct rolemap *rm)
 {
 	const struct rref	*rr;
 
-	if (rm == NULL)
+	if (TAILQ_EMPTY(&cfg->rq))
 		return 0;
 
 	if (fputs("\t\tswitch (this.#role) {\n", f) == EOF)
-		return 0;
-	TAILQ_FOREACH(rr, &rm->rq, entries)
-		if (!gen_role(f, rr->role, 2))
-			return 0;
+		return -1;
+	if (rm != NULL) {
+		TAILQ_FOREACH(rr, &rm->rq, entries)
+			if (!gen_role(f, rr->role, 2))
+				return -1;
+		if (fputs("\t\t\tbreak;\n", f) == EOF)
+			return -1;
+	}
 
-	return fputs("\t\t\tbreak;\n"
-	     "\t\tdefault:\n"
+	return fputs("\t\tdefault:\n"
 	     "\t\t\tprocess.abort();\n"
-	     "\t\t}\n", f) != EOF;
+	     "\t\t}\n", f) == EOF ? -1 : 1;
 }
 
 /*
@@ -386,7 +390,7 @@ gen_fill(FILE *f, const struct strct *p)
  * success.
  */
 static int
-gen_insert(FILE *f, const struct strct *p)
+gen_insert(FILE *f, const struct config *cfg, const struct strct *p)
 {
 	const struct field	*fd;
 	size_t	 	 	 pos = 1, col;
@@ -461,7 +465,7 @@ gen_insert(FILE *f, const struct strct *p)
 	    "\n", p->name) < 0)
 		return 0;
 
-	if ((rc = gen_rolemap(f, p->ins->rolemap)) < 0)
+	if ((rc = gen_rolemap(f, cfg, p->ins->rolemap)) < 0)
 		return 0;
 	else if (rc > 0 && fputc('\n', f) == EOF)
 		return 0;
@@ -730,7 +734,7 @@ gen_update(FILE *f, const struct config *cfg,
 	    num) < 0)
 		return 0;
 
-	if ((rc = gen_rolemap(f, up->rolemap)) < 0)
+	if ((rc = gen_rolemap(f, cfg, up->rolemap)) < 0)
 		return 0;
 	else if (rc > 0 && fputc('\n', f) == EOF)
 		return 0;
@@ -1139,7 +1143,7 @@ gen_query(FILE *f, const struct config *cfg,
 	    "\t\tstmt.raw(true);\n"
 	    "\n", s->parent->name, num) < 0)
 		return 0;
-	if ((rc = gen_rolemap(f, s->rolemap)) < 0)
+	if ((rc = gen_rolemap(f, cfg, s->rolemap)) < 0)
 		return 0;
 	else if (rc > 0 && fputc('\n', f) == EOF)
 		return 0;
@@ -1318,7 +1322,7 @@ gen_api(FILE *f, const struct config *cfg, const struct strct *p)
 	if (!gen_reffind(f, p))
 		return 0;
 
-	if (p->ins != NULL && !gen_insert(f, p))
+	if (p->ins != NULL && !gen_insert(f, cfg, p))
 		return 0;
 
 	pos = 0;
-- 
2.43.0


From b54d498247603dbbc124ed2752005ce6a6b77845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:25 +0000
Subject: [PATCH 071/108] fix: do not print a switch case without labels in the
 Node.js output

---
 lang-nodejs.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/lang-nodejs.c b/lang-nodejs.c
index f7ec65c..846e8bf 100644
--- a/lang-nodejs.c
+++ b/lang-nodejs.c
@@ -143,7 +143,8 @@ gen_var(FILE *f, size_t pos, size_t col, const struct field *fd)
 }
 
 /*
- * Generate role name (if not all) and recursively descend.
+ * Generate role name and recursively descend.  This includes "all",
+ * which is never the current role: there might be no roles beneath it.
  * Return zero on failure, non-zero on success.
  */
 static int
@@ -152,13 +153,11 @@ gen_role(FILE *f, const struct role *r, size_t tabs)
 	const struct role	*rr;
 	size_t			 i;
 
-	if (strcmp(r->name, "all")) {
-		for (i = 0; i < tabs; i++)
-			if (fputc('\t', f) == EOF)
-				return 0;
-		if (fprintf(f, "case '%s\':\n", r->name) < 0)
+	for (i = 0; i < tabs; i++)
+		if (fputc('\t', f) == EOF)
 			return 0;
-	}
+	if (fprintf(f, "case '%s\':\n", r->name) < 0)
+		return 0;
 
 	TAILQ_FOREACH(rr, &r->subrq, entries)
 		if (!gen_role(f, rr, tabs))
-- 
2.43.0


From e7853e7dda76ec223270a2f8379a3b5cb68e9674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:59 +0000
Subject: [PATCH 072/108] fix: keep operations denied to all roles reachable to
 the TypeScript compiler

---
 lang-nodejs.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lang-nodejs.c b/lang-nodejs.c
index 846e8bf..8463f05 100644
--- a/lang-nodejs.c
+++ b/lang-nodejs.c
@@ -184,11 +184,14 @@ gen_rolemap(FILE *f, const struct config *cfg, const struct rolemap *rm)
 		TAILQ_FOREACH(rr, &rm->rq, entries)
 			if (!gen_role(f, rr->role, 2))
 				return -1;
-		if (fputs("\t\t\tbreak;\n", f) == EOF)
+	} else {
+		/* Never current, but keeps what follows reachable. */
+		if (fputs("\t\tcase 'all':\n", f) == EOF)
 			return -1;
 	}
 
-	return fputs("\t\tdefault:\n"
+	return fputs("\t\t\tbreak;\n"
+	     "\t\tdefault:\n"
 	     "\t\t\tprocess.abort();\n"
 	     "\t\t}\n", f) == EOF ? -1 : 1;
 }
-- 
2.43.0


From 632f33616de64d7d9b021378568e27bf072b7ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:38 +0000
Subject: [PATCH 073/108] fix: print real limits in full in the Node.js
 validators

---
 lang-nodejs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lang-nodejs.c b/lang-nodejs.c
index 8463f05..d10bf24 100644
--- a/lang-nodejs.c
+++ b/lang-nodejs.c
@@ -1682,7 +1682,7 @@ gen_ortns_express_valid(FILE *f, const struct field *fd)
 			return 0;
 		TAILQ_FOREACH(fv, &fd->fvq, entries)
 			if (fprintf(f, 
-			    "\t\t\tif (!(nv %s %f))\n"
+			    "\t\t\tif (!(nv %s %.17g))\n"
 			    "\t\t\t\treturn null;\n", 
 			    vtypes[fv->type], fv->d.value.decimal) < 0)
 				return 0;
-- 
2.43.0


From 75d556a02e6420560bd7b317d85a90d79821c262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:38 +0000
Subject: [PATCH 074/108] fix: apply limits to bytes and to all types having
 them in the Node.js validators

---
 lang-nodejs.c | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/lang-nodejs.c b/lang-nodejs.c
index d10bf24..3f236bb 100644
--- a/lang-nodejs.c
+++ b/lang-nodejs.c
@@ -1642,7 +1642,15 @@ gen_ortns_express_valid(FILE *f, const struct field *fd)
 
 	switch (fd->type) {
 	case FTYPE_BLOB:
-		if (fputs("\t\t\treturn Buffer.from(v);\n", f) == EOF)
+		if (fputs("\t\t\tconst nv: Buffer = Buffer.from(v);\n", f) == EOF)
+			return 0;
+		TAILQ_FOREACH(fv, &fd->fvq, entries)
+			if (fprintf(f, 
+			    "\t\t\tif (!(nv.length %s %zu))\n"
+			    "\t\t\t\treturn null;\n", 
+			    vtypes[fv->type], fv->d.value.len) < 0)
+				return 0;
+		if (fputs("\t\t\treturn nv;\n", f) == EOF)
 			return 0;
 		return 1;
 	case FTYPE_TEXT:
@@ -1653,7 +1661,7 @@ gen_ortns_express_valid(FILE *f, const struct field *fd)
 			return 0;
 		TAILQ_FOREACH(fv, &fd->fvq, entries)
 			if (fprintf(f, 
-			    "\t\t\tif (!(nv.length %s %zu))\n"
+			    "\t\t\tif (!(Buffer.byteLength(nv) %s %zu))\n"
 			    "\t\t\t\treturn null;\n", 
 			    vtypes[fv->type], fv->d.value.len) < 0)
 				return 0;
@@ -1666,8 +1674,16 @@ gen_ortns_express_valid(FILE *f, const struct field *fd)
 		     "\t\t\t\treturn null;\n"
 		     "\t\t\tconst em: string|false = \n"
 		     "\t\t\t\tvalidator.normalizeEmail(v.trim());\n"
-		     "\t\t\treturn typeof(em) === 'string' ? "
-		     "em : null;\n", f) == EOF)
+		     "\t\t\tif (typeof em !== 'string')\n"
+		     "\t\t\t\treturn null;\n", f) == EOF)
+			return 0;
+		TAILQ_FOREACH(fv, &fd->fvq, entries)
+			if (fprintf(f, 
+			    "\t\t\tif (!(Buffer.byteLength(em) %s %zu))\n"
+			    "\t\t\t\treturn null;\n", 
+			    vtypes[fv->type], fv->d.value.len) < 0)
+				return 0;
+		if (fputs("\t\t\treturn em;\n", f) == EOF)
 			return 0;
 		return 1;
 	case FTYPE_REAL:
-- 
2.43.0


From e73a22f48517bde4d9d8577418ca50d36230293b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:38 +0000
Subject: [PATCH 075/108] fix: refuse values which are not strings in the
 Node.js validators

---
 lang-nodejs.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/lang-nodejs.c b/lang-nodejs.c
index 3f236bb..df18921 100644
--- a/lang-nodejs.c
+++ b/lang-nodejs.c
@@ -1642,7 +1642,12 @@ gen_ortns_express_valid(FILE *f, const struct field *fd)
 
 	switch (fd->type) {
 	case FTYPE_BLOB:
-		if (fputs("\t\t\tconst nv: Buffer = Buffer.from(v);\n", f) == EOF)
+		if (fputs("\t\t\tlet nv: Buffer;\n"
+		     "\t\t\ttry {\n"
+		     "\t\t\t\tnv = Buffer.from(v);\n"
+		     "\t\t\t} catch (er) {\n"
+		     "\t\t\t\treturn null;\n"
+		     "\t\t\t}\n", f) == EOF)
 			return 0;
 		TAILQ_FOREACH(fv, &fd->fvq, entries)
 			if (fprintf(f, 
@@ -1670,10 +1675,12 @@ gen_ortns_express_valid(FILE *f, const struct field *fd)
 		return 1;
 	case FTYPE_EMAIL:
 		if (fputs
-		    ("\t\t\tif (!validator.isEmail(v.trim()))\n"
+		    ("\t\t\tif (!validator.isEmail"
+		     "(v.toString().trim()))\n"
 		     "\t\t\t\treturn null;\n"
 		     "\t\t\tconst em: string|false = \n"
-		     "\t\t\t\tvalidator.normalizeEmail(v.trim());\n"
+		     "\t\t\t\tvalidator.normalizeEmail"
+		     "(v.toString().trim());\n"
 		     "\t\t\tif (typeof em !== 'string')\n"
 		     "\t\t\t\treturn null;\n", f) == EOF)
 			return 0;
@@ -1707,11 +1714,12 @@ gen_ortns_express_valid(FILE *f, const struct field *fd)
 		return 1;
 	case FTYPE_DATE:
 		if (fputs
-		    ("\t\t\tif (!validator.isDate(v.trim(), { "
+		    ("\t\t\tif (!validator.isDate"
+		     "(v.toString().trim(), { "
 		     "format: 'YYYY-MM-DD', strictMode: true }))\n"
 		     "\t\t\t\treturn null;\n"
 		     "\t\t\tconst nd: Date|null = "
-		     "validator.toDate(v.trim());\n"
+		     "validator.toDate(v.toString().trim());\n"
 		     "\t\t\tif (nd === null)\n"
 		     "\t\t\t\treturn null;\n"
 		     "\t\t\tconst nv: bigint = "
-- 
2.43.0


From b3d368c87122ec6765c8d407c5248bd604d5c8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:28 +0000
Subject: [PATCH 076/108] fix: escape backslashes and line terminators of
 labels in JavaScript

---
 lang-javascript.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/lang-javascript.c b/lang-javascript.c
index a43de9a..308e4e8 100644
--- a/lang-javascript.c
+++ b/lang-javascript.c
@@ -72,7 +72,7 @@ static	const char *types[FTYPE__MAX] = {
 
 /*
  * Escape JavaScript string literal.
- * This escapes backslashes and single apostrophes.
+ * This escapes backslashes, single apostrophes, and line terminators.
  */
 static int
 gen_label_text(FILE *f, const char *cp)
@@ -85,6 +85,21 @@ gen_label_text(FILE *f, const char *cp)
 			if (fputs("\\\'", f) == EOF)
 				return 0;
 			break;
+		case '\\':
+			/* Escaped quotes denote the quote itself. */
+			if (*cp == '"')
+				break;
+			if (fputs("\\\\", f) == EOF)
+				return 0;
+			break;
+		case '\n':
+			if (fputs("\\n", f) == EOF)
+				return 0;
+			break;
+		case '\r':
+			if (fputs("\\r", f) == EOF)
+				return 0;
+			break;
 		default:
 			if (fputc(c, f) == EOF)
 				return 0;
-- 
2.43.0


From 4ea87e7967a60074204b58bbfb716006d14ee57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:28 +0000
Subject: [PATCH 077/108] fix: invoke custom JavaScript callbacks after date
 and bit classes are filled

---
 lang-javascript.c | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/lang-javascript.c b/lang-javascript.c
index 308e4e8..630815a 100644
--- a/lang-javascript.c
+++ b/lang-javascript.c
@@ -313,6 +313,19 @@ gen_js_field(FILE *f, const struct field *fd)
 			return 0;
 	}
 
+	/* These precede _fillField(), which invokes custom callbacks. */
+
+	if (fd->type == FTYPE_BIT || fd->type == FTYPE_BITFIELD)
+		if (fprintf(f, "\t\t\t_fillBitsChecked"
+		    "(e, '%s-%s', o.%s, inc);\n",
+		    fd->parent->name, fd->name, fd->name) < 0)
+			return 0;
+	if (fd->type == FTYPE_DATE || fd->type == FTYPE_EPOCH)
+		if (fprintf(f, "\t\t\t_fillDateValue"
+		    "(e, '%s-%s', o.%s, inc);\n",
+		    fd->parent->name, fd->name, fd->name) < 0)
+			return 0;
+
 	col = 37;
 	if (fputs("\t\t\t_fillField(e,", f) == EOF)
 		return 0;
@@ -414,17 +427,6 @@ gen_js_field(FILE *f, const struct field *fd)
 
 	free(buf);
 
-	if (fd->type == FTYPE_BIT || fd->type == FTYPE_BITFIELD)
-		if (fprintf(f, "\t\t\t_fillBitsChecked"
-		    "(e, '%s-%s', o.%s, inc);\n",
-		    fd->parent->name, fd->name, fd->name) < 0)
-			return 0;
-	if (fd->type == FTYPE_DATE || fd->type == FTYPE_EPOCH)
-		if (fprintf(f, "\t\t\t_fillDateValue"
-		    "(e, '%s-%s', o.%s, inc);\n",
-		    fd->parent->name, fd->name, fd->name) < 0)
-			return 0;
-
 	return 1;
 }
 
-- 
2.43.0


From 2ab04fae27b14ab8ca2dedc26641fda4b72bce74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:28 +0000
Subject: [PATCH 078/108] fix: compare signed with large unsigned 64-bit
 numbers in JavaScript

---
 ortPrivate.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ortPrivate.ts b/ortPrivate.ts
index 46a1941..18ab743 100644
--- a/ortPrivate.ts
+++ b/ortPrivate.ts
@@ -229,7 +229,7 @@
 
 			// At this point the sign bits are the same
 
-			if (!this.unsigned)
+			if (!this.unsigned && !v.unsigned)
 				return this.sub(v).isNegative() ? -1 : 1;
 
 			// Both are positive if at least one is unsigned
-- 
2.43.0


From 176154f540cfbdb3bb11fe727cdce0a645423dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:28 +0000
Subject: [PATCH 079/108] fix: refuse repeated minus signs of 64-bit numbers in
 JavaScript

---
 ortPrivate.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ortPrivate.ts b/ortPrivate.ts
index 18ab743..bd5ca2a 100644
--- a/ortPrivate.ts
+++ b/ortPrivate.ts
@@ -497,6 +497,9 @@
 			    str === '+Infinity' || str === '-Infinity')
 				return null;
 
+			if (!str.match(/^-?[0-9]+$/))
+				return null;
+
 			if (hyph === 0) {
 				const nresult: Long|null = 
 					Long.fromString
@@ -506,9 +509,6 @@
 				return nresult.neg();
 			}
 
-			if (!str.match(/^[0-9]+$/))
-				return null;
-
 			// Do several (8) digits each time through the
 			// loop, so as to  minimize the calls to the
 			// very expensive emulated div.
-- 
2.43.0


From a0a551cab5daeea4a51e8cf681889c94635bf2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:28 +0000
Subject: [PATCH 080/108] fix: zero-pad years of ISO 8601 dates in JavaScript

---
 ortPrivate.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ortPrivate.ts b/ortPrivate.ts
index bd5ca2a..500b198 100644
--- a/ortPrivate.ts
+++ b/ortPrivate.ts
@@ -794,7 +794,9 @@
 		const year = d.getFullYear();
 		const mo = d.getMonth() + 1;
 		const day = d.getDate();
-		const full = year + '-' +
+		const full =
+			(year < 0 || year > 999 ? '' : year > 99 ? '0' :
+			 year > 9 ? '00' : '000') + year + '-' +
 			(mo < 10 ? '0' : '') + mo + '-' +
 			(day < 10 ? '0' : '') + day;
 		_attrcl(e, 'value', fname + '-date-value', full, inc);
-- 
2.43.0


From 3f2bccdeb2686ba560fce7fb94469beedad7de09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:28 +0000
Subject: [PATCH 081/108] fix: do not check the zero bit index for the highest
 bit in JavaScript

---
 ortPrivate.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ortPrivate.ts b/ortPrivate.ts
index 500b198..637cbdf 100644
--- a/ortPrivate.ts
+++ b/ortPrivate.ts
@@ -842,8 +842,8 @@
 			if (v < 0 || v > 64)
 				continue;
 
-			if ((v === 0 && lval.isZero()) ||
-			    !Long.ONE.shl(v - 1).and(lval).isZero()) {
+			if ((v === 0 && lval.isZero()) || (v > 0 &&
+			    !Long.ONE.shl(v - 1).and(lval).isZero())) {
 				inp.setAttribute('checked', 'checked');
 			}
 		}
-- 
2.43.0


From 9473c863fe29bfc9eecc8a5fa521e838ff364215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:06 +0000
Subject: [PATCH 082/108] fix: accept explicit values after the greatest
 automatic enumeration value

---
 parser_enum.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/parser_enum.c b/parser_enum.c
index 6eb630a..47e0246 100644
--- a/parser_enum.c
+++ b/parser_enum.c
@@ -210,14 +210,17 @@ parse_enum_data(struct parse *p, struct enm *e)
 				if (ei->value > maxvalue)
 					maxvalue = ei->value;
 		maxvalue = maxvalue < 0 ? 0 : maxvalue + 1;
-		TAILQ_FOREACH(ei, &e->eq, entries)
+		TAILQ_FOREACH(ei, &e->eq, entries) {
+			if (!(ei->flags & EITEM_AUTO))
+				continue;
 			if (maxvalue == INT64_MAX) {
 				parse_errx(p, "integer overflow "
 					"when assigning dynamic "
 					"enum value");
 				return;
-			} else if ((ei->flags & EITEM_AUTO))
-				ei->value = maxvalue++;
+			}
+			ei->value = maxvalue++;
+		}
 	}
 
 	if (PARSE_STOP(p))
-- 
2.43.0


From 762cb816c6a4981dcc873e77b5a0f6ebcf836e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:19 +0000
Subject: [PATCH 083/108] fix: do not assign enumeration values after an error

A value of INT64_MAX is refused, but the automatic values were still
computed from it, which overflows.
---
 parser_enum.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser_enum.c b/parser_enum.c
index 47e0246..ee76bf2 100644
--- a/parser_enum.c
+++ b/parser_enum.c
@@ -275,6 +275,9 @@ parse_enum(struct parse *p)
 
 	parse_enum_data(p, e);
 
+	if (PARSE_STOP(p))
+		return;
+
 	/* Get the sup(max) bount below at zero. */
 
 	TAILQ_FOREACH(ei, &e->eq, entries)
-- 
2.43.0


From e1605bdd5ac4934a9ee2bba029be84a269c8f6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:56 +0000
Subject: [PATCH 084/108] fix: pass the role to the export of nested Rust
 structures

---
 lang-rust.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lang-rust.c b/lang-rust.c
index 1df62c3..9a682ce 100644
--- a/lang-rust.c
+++ b/lang-rust.c
@@ -205,8 +205,11 @@ static int
 gen_field_to_json(const struct field *fd, int first, FILE *f)
 {
 	const struct rref	*r;
+	const char		*role;
 	int	 		 tabs = 16, rc = 0;
 
+	role = TAILQ_EMPTY(&fd->parent->cfg->arq) ? "" : "role";
+
 	if (fd->flags & FIELD_NOEXPORT)
 		return 0;
 	if (fd->type == FTYPE_PASSWORD)
@@ -288,14 +291,14 @@ gen_field_to_json(const struct field *fd, int first, FILE *f)
 			if (fprintf(f,
 			    "%*sif let Some(ref x) = &self.%s {\n"
 			    "%*sret += \"{\";\n"
-			    "%*sret += &x.to_json();\n"
+			    "%*sret += &x.to_json(%s);\n"
 			    "%*sret += \"}\";\n"
 			    "%*s} else {\n"
 			    "%*sret += \"null\";\n"
 			    "%*s}\n",
 			    tabs, "", fd->name, 
 			    tabs + 4, "", 
-			    tabs + 4, "", 
+			    tabs + 4, "", role,
 			    tabs + 4, "", 
 			    tabs, "", 
 			    tabs + 4, "", 
@@ -304,10 +307,10 @@ gen_field_to_json(const struct field *fd, int first, FILE *f)
 		} else {
 			if (fprintf(f,
 			    "%*sret += \"{\";\n"
-			    "%*sret += &self.%s.to_json();\n"
+			    "%*sret += &self.%s.to_json(%s);\n"
 			    "%*sret += \"}\";\n",
 			    tabs, "", 
-			    tabs, "", fd->name, 
+			    tabs, "", fd->name, role,
 			    tabs, "") < 0)
 				return -1;
 		}
-- 
2.43.0


From 7bf4a136b91f31b901f2dfaffd19c5d376a66716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:29 +0000
Subject: [PATCH 085/108] fix: escape backslashes and control characters in the
 JSON export of Rust

---
 lang-rust.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lang-rust.c b/lang-rust.c
index 9a682ce..cd9454a 100644
--- a/lang-rust.c
+++ b/lang-rust.c
@@ -577,14 +577,16 @@ gen_data(const struct config *cfg, FILE *f)
 	    "%20s'\\r'   => escaped += \"\\\\r\",\n"
 	    "%20s'\\t'   => escaped += \"\\\\t\",\n"
 	    "%20s'\"'    => escaped += \"\\\\\\\"\",\n"
-	    "%20s'\\\\'   => escaped += \"\\\\\",\n"
+	    "%20s'\\\\'   => escaped += \"\\\\\\\\\",\n"
+	    "%20s'\\x00'..='\\x1f' => escaped += "
+	     "&format!(\"\\\\u{:04x}\", c as u32),\n"
 	    "%20sc      => escaped.push(c),\n"
 	    "%16s}\n"
 	    "%12s}\n"
 	    "%12sescaped.push('\"');\n"
 	    "%12sescaped\n"
 	    "%8s}\n",
-	    "", "", "", "", "", "", "", "", "",
+	    "", "", "", "", "", "", "", "", "", "",
 	    "", "", "", "", "", "", "", "", "") < 0)
 		return 0;
 
-- 
2.43.0


From 9ba07a3b429aa05347ed91d9724fd959c66755db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:30 +0000
Subject: [PATCH 086/108] fix: separate the exported fields of Rust structures
 if the first are not exported to a role

---
 lang-rust.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/lang-rust.c b/lang-rust.c
index cd9454a..a7a44bd 100644
--- a/lang-rust.c
+++ b/lang-rust.c
@@ -229,8 +229,14 @@ gen_field_to_json(const struct field *fd, int first, FILE *f)
 		tabs += 4;
 	}
 
-	if (fprintf(f, "%*sret += \"%s\\\"%s\\\":\";\n",
-	    tabs, "", first ? "" : ",", fd->name) < 0)
+	/* Preceding fields might not be exported to the role. */
+
+	if (!first && fprintf(f, "%*sif !ret.is_empty() {\n"
+	    "%*sret += \",\";\n"
+	    "%*s}\n", tabs, "", tabs + 4, "", tabs, "") < 0)
+		return -1;
+	if (fprintf(f, "%*sret += \"\\\"%s\\\":\";\n",
+	    tabs, "", fd->name) < 0)
 		return -1;
 
 	switch (fd->type) {
@@ -367,7 +373,9 @@ gen_field_to_json(const struct field *fd, int first, FILE *f)
 		break;
 	}
 
-	if (fd->rolemap != NULL && fprintf(f, "%16s}\n", "") < 0)
+	if (fd->rolemap != NULL &&
+	    !TAILQ_EMPTY(&fd->rolemap->rq) &&
+	    fprintf(f, "%16s}\n", "") < 0)
 		return 0;
 
 	return 1;
-- 
2.43.0


From b6e139144176983610baba5cc9cfe64882c205fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:56 +0000
Subject: [PATCH 087/108] fix: make the role methods of the Rust context public
 and document them

---
 lang-rust.c    |  4 ++--
 man/ort-rust.1 | 46 +++++++++++++++++++++++-----------------------
 2 files changed, 25 insertions(+), 25 deletions(-)

diff --git a/lang-rust.c b/lang-rust.c
index a7a44bd..4239fe0 100644
--- a/lang-rust.c
+++ b/lang-rust.c
@@ -1480,13 +1480,13 @@ gen_ortctx_dbrole(const struct config *cfg, FILE *f)
 		return 1;
 
 	if (fprintf(f,
-	    "%8sfn db_role_current(&self) -> Ortrole {\n"
+	    "%8spub fn db_role_current(&self) -> Ortrole {\n"
 	    "%12sreturn self.role;\n"
 	    "%8s}\n", "", "", "") < 0)
 		return 0;
 
 	if (fprintf(f,
-	    "%8sfn db_role(&mut self, newrole: Ortrole) {\n"
+	    "%8spub fn db_role(&mut self, newrole: Ortrole) {\n"
 	    "%12sif self.role == newrole {\n"
 	    "%16sreturn;\n"
 	    "%12s}\n"
diff --git a/man/ort-rust.1 b/man/ort-rust.1
index 0e21fcb..2a285b7 100644
--- a/man/ort-rust.1
+++ b/man/ort-rust.1
@@ -92,29 +92,29 @@ Each sequence of database interaction begins with the
 method from the application-wide
 .Vt Ortdb
 instance.
-.\" The resulting
-.\" .Vt Ortctx
-.\" object has the following role methods:
-.\" .Bl -tag -width Ds
-.\" .It Fn db_role "newrole: string" Ns No : void
-.\" If roles are enabled, move from the current role to
-.\" .Fa newrole .
-.\" If the role is the same as the current role, this does nothing.
-.\" Roles may only transition to ancestor roles, not descendant roles or
-.\" siblings, or any other non-ancestor roles.
-.\" The only exception is when leaving
-.\" .Qq default
-.\" or entering
-.\" .Qq none .
-.\" This does not return failure: on role violation, it invokes
-.\" .Fn process.abort .
-.\" .It Fn db_role_current Ns No : string
-.\" If roles are enabled, get the currently-assigned role.
-.\" If
-.\" .Fn db_role
-.\" hasn't yet been called, this will be
-.\" .Qq default .
-.\" .El
+The resulting
+.Vt Ortctx
+object has the following role methods:
+.Bl -tag -width Ds
+.It Fn db_role "newrole: Ortrole"
+If roles are enabled, move from the current role to
+.Fa newrole .
+If the role is the same as the current role, this does nothing.
+Roles may only transition to ancestor roles, not descendant roles or
+siblings, or any other non-ancestor roles.
+The only exception is when leaving
+.Qq default
+or entering
+.Qq none .
+This does not return failure: on role violation, it invokes
+.Fn panic! .
+.It Fn db_role_current No -> Ft Ortrole
+If roles are enabled, get the currently-assigned role.
+If
+.Fn db_role
+hasn't yet been called, this will be
+.Qq default .
+.El
 .\" .Pp
 .\" The following
 .\" .Vt ortctx
-- 
2.43.0


From 50414ba6044453fbb7b16d5e42ca5f5a2f8a1557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:56 +0000
Subject: [PATCH 088/108] fix: allow Rust roles to change to their ancestors
 instead of descendants

---
 lang-rust.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/lang-rust.c b/lang-rust.c
index 4239fe0..1b897f2 100644
--- a/lang-rust.c
+++ b/lang-rust.c
@@ -1435,9 +1435,9 @@ gen_query(const struct search *s, size_t num, FILE *f)
 }
 
 /*
- * Generate all of the possible transitions from the given role into all
- * possible roles, then all of the transitions from the roles "beneath"
- * the current role.
+ * Generate all of the possible transitions from the given role into its
+ * ancestors and "none", then all of the transitions from the roles
+ * "beneath" the current role.
  * Return zero on failure, non-zero on success.
  */
 static int
@@ -1447,12 +1447,16 @@ gen_ortctx_dbrole_role(FILE *f, const struct role *r)
 
 	if (fprintf(f,
 	    "%16sOrtrole::%c%s => {\n"
-	    "%20sif ",
+	    "%20sif newrole == Ortrole::None",
 	    "", toupper((unsigned char)r->name[0]),
 	    r->name + 1, "") < 0)
 		return 0;
-	if (gen_role(f, r, 3, "newrole", 0, 0) < 0)
-		return 0;
+	for (rr = r->parent; rr != NULL; rr = rr->parent)
+		if (strcmp(rr->name, "all") && fprintf(f,
+		    " || newrole == Ortrole::%c%s",
+		    toupper((unsigned char)rr->name[0]),
+		    rr->name + 1) < 0)
+			return 0;
 	if (fprintf(f, " {\n"
 	    "%24sself.role = newrole;\n"
 	    "%24sreturn;\n"
-- 
2.43.0


From d03a365f8ec205eeff0887386f8e9e75f807c242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:33 +0000
Subject: [PATCH 089/108] fix: deny Rust operations without roles if roles are
 enabled

---
 lang-rust.c | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/lang-rust.c b/lang-rust.c
index 1b897f2..70444f7 100644
--- a/lang-rust.c
+++ b/lang-rust.c
@@ -150,23 +150,28 @@ gen_role(FILE *f, const struct role *r, size_t tabs,
 
 /*
  * Recursively generate all roles allowed by this rolemap.
+ * If roles are enabled, those not allowed are denied, even if there is
+ * no rolemap.
  * Return FALSE on failure, TRUE on success.
  */
 static int
-gen_rolemap(FILE *f, const struct rolemap *rm)
+gen_rolemap(FILE *f, const struct config *cfg, const struct rolemap *rm)
 {
 	const struct rref	*rr;
 	int			 rc = 0;
 
-	if (rm == NULL || TAILQ_EMPTY(&rm->rq))
+	if (TAILQ_EMPTY(&cfg->arq))
 		return 1;
 	if (fprintf(f, "%12sif !(", "") < 0)
 		return 0;
-	TAILQ_FOREACH(rr, &rm->rq, entries) {
-		rc = gen_role(f, rr->role, 4, "self.role", rc, 0);
-		if (rc < 0)
-			return 0;
-	}
+	if (rm != NULL)
+		TAILQ_FOREACH(rr, &rm->rq, entries) {
+			rc = gen_role(f, rr->role, 4, "self.role", rc, 0);
+			if (rc < 0)
+				return 0;
+		}
+	if (rc == 0 && fputs("false", f) == EOF)
+		return 0;
 
 	return fprintf(f, ") {\n"
 		"%16spanic!(\"role violation\");\n"
@@ -782,7 +787,7 @@ gen_update(const struct update *up, size_t num, FILE *f)
 	if (fprintf(f, ") -> Result<%s> {\n",
 	    up->type == UP_MODIFY ? "bool" : "()") < 0)
 		return 0;
-	if (!gen_rolemap(f, up->rolemap))
+	if (!gen_rolemap(f, up->parent->cfg, up->rolemap))
 		return 0;
 	if (fprintf(f, "%12slet sql = stmt::stmt_fmt(stmt::", "") < 0)
 		return 0;
@@ -1115,7 +1120,7 @@ gen_insert(const struct strct *s, FILE *f)
 
 	if (fputs(") -> Result<i64> {\n", f) == EOF)
 		return 0;
-	if (!gen_rolemap(f, s->ins->rolemap))
+	if (!gen_rolemap(f, s->cfg, s->ins->rolemap))
 		return 0;
 
 	if (fprintf(f,
@@ -1293,7 +1298,7 @@ gen_query(const struct search *s, size_t num, FILE *f)
 
 	if (fputs(" {\n", f) == EOF)
 		return 0;
-	if (!gen_rolemap(f, s->rolemap))
+	if (!gen_rolemap(f, s->parent->cfg, s->rolemap))
 		return 0;
 
 	if (fprintf(f, "%12slet sql = stmt::stmt_fmt(stmt::", "") < 0)
-- 
2.43.0


From 93fa20dd7cdcc65b80e6800a9cb9087890663bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:57 +0000
Subject: [PATCH 090/108] fix: bind enumerations in Rust updates and deletions,
 and null ones in queries

---
 lang-rust.c | 54 ++++++++++++++++++++++++++++++++---------------------
 1 file changed, 33 insertions(+), 21 deletions(-)

diff --git a/lang-rust.c b/lang-rust.c
index 70444f7..776fde5 100644
--- a/lang-rust.c
+++ b/lang-rust.c
@@ -206,6 +206,26 @@ gen_var(FILE *f, size_t pos, const struct field *fd, int comma)
 	return 1;
 }
 
+/*
+ * Print an enumeration parameter (of which the database stores the
+ * value) with its comma and newline.
+ * Return <0 on failure.
+ */
+static int
+gen_param_enum(FILE *f, size_t pos, const struct field *fd)
+{
+
+	if (fd->flags & FIELD_NULL)
+		return fprintf(f,
+		    "%16smatch v%zu {\n"
+		    "%20sSome(x) => Some"
+		     "(ToPrimitive::to_i64(&x).unwrap()),\n"
+		    "%20sNone => None,\n"
+		    "%16s},\n", "", pos, "", "", "");
+	return fprintf(f, "%16sToPrimitive::to_i64(&v%zu).unwrap(),\n",
+	    "", pos);
+}
+
 static int
 gen_field_to_json(const struct field *fd, int first, FILE *f)
 {
@@ -838,6 +858,9 @@ gen_update(const struct update *up, size_t num, FILE *f)
 			if (fprintf(f, "%16shash%zu,\n", "", hash) < 0)
 				return 0;
 			hash++;
+		} else if (ref->field->type == FTYPE_ENUM) {
+			if (gen_param_enum(f, pos, ref->field) < 0)
+				return 0;
 		} else {
 			if (fprintf(f, "%16sv%zu,\n", "", pos) < 0)
 				return 0;
@@ -849,8 +872,13 @@ gen_update(const struct update *up, size_t num, FILE *f)
 		assert(ref->field->type != FTYPE_STRUCT);
 		if (OPTYPE_ISUNARY(ref->op))
 			continue;
-		if (fprintf(f, "%16sv%zu,\n", "", pos) < 0)
-			return 0;
+		if (ref->field->type == FTYPE_ENUM) {
+			if (gen_param_enum(f, pos, ref->field) < 0)
+				return 0;
+		} else {
+			if (fprintf(f, "%16sv%zu,\n", "", pos) < 0)
+				return 0;
+		}
 		pos++;
 	}
 
@@ -1178,23 +1206,8 @@ gen_insert(const struct strct *s, FILE *f)
 				return 0;
 			break;
 		case FTYPE_ENUM:
-			if (fd->flags & FIELD_NULL) {
-				if (fprintf(f,
-				    "%16smatch v%zu {\n"
-				    "%20sSome(x) => Some"
-				     "(ToPrimitive::to_i64"
-				      "(&x).unwrap()),\n"
-				    "%20sNone => None,\n"
-				    "%16s},\n",
-				    "", pos, "", "", "") < 0)
-					return 0;
-			} else {
-				if (fprintf(f,
-				    "%16sToPrimitive::to_i64"
-				     "(&v%zu).unwrap(),\n",
-				    "", pos) < 0)
-					return 0;
-			}
+			if (gen_param_enum(f, pos, fd) < 0)
+				return 0;
 			break;
 		default:
 			if (fprintf(f,
@@ -1318,8 +1331,7 @@ gen_query(const struct search *s, size_t num, FILE *f)
 			continue;
 		switch (sent->field->type) {
 		case FTYPE_ENUM:
-			if (fprintf(f, "%16sToPrimitive::to_i64"
-			    "(&v%zu).unwrap(),\n", "", pos) < 0)
+			if (gen_param_enum(f, pos, sent->field) < 0)
 				return 0;
 			break;
 		case FTYPE_PASSWORD:
-- 
2.43.0


From 01691dc6ae988b0ac480603696c264f5b01c9289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:57 +0000
Subject: [PATCH 091/108] fix: look up null references beneath Rust references
 which are not null

---
 lang-rust.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lang-rust.c b/lang-rust.c
index 776fde5..b20e940 100644
--- a/lang-rust.c
+++ b/lang-rust.c
@@ -1021,6 +1021,14 @@ gen_reffind(const struct strct *s, FILE *f)
 		if (!(fd->ref->target->parent->flags &
 		      STRCT_HAS_NULLREFS))
 			continue;
+		if (!(fd->ref->source->flags & FIELD_NULL)) {
+			if (fprintf(f,
+			    "%12sself.db_%s_reffind(&mut obj.%s)?;\n",
+			    "", fd->ref->target->parent->name,
+			    fd->name) < 0)
+				return 0;
+			continue;
+		}
 		if (fprintf(f,
 		    "%12sif let Some(mut nobj) = obj.%s.as_mut() {\n"
 		    "%16sself.db_%s_reffind(&mut nobj)?;\n"
-- 
2.43.0


From c4b436b667d8c4d316da517f13ba40ac3f302d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:57 +0000
Subject: [PATCH 092/108] fix: report errors of looking up null references in
 Rust

---
 lang-rust.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lang-rust.c b/lang-rust.c
index b20e940..6b97b07 100644
--- a/lang-rust.c
+++ b/lang-rust.c
@@ -1369,7 +1369,7 @@ gen_query(const struct search *s, size_t num, FILE *f)
 			return 0;
 		if (rs->flags & STRCT_HAS_NULLREFS)
 		       if (fprintf(f,
-			   "%16sself.db_%s_reffind(&mut obj);\n",
+			   "%16sself.db_%s_reffind(&mut obj)?;\n",
 			   "", rs->name) < 0)
 			       return 0;
 		gen_query_checkpass(f, s, 1);
@@ -1397,7 +1397,7 @@ gen_query(const struct search *s, size_t num, FILE *f)
 			return 0;
 		if (rs->flags & STRCT_HAS_NULLREFS)
 		       if (fprintf(f,
-			   "%16sself.db_%s_reffind(&mut obj);\n",
+			   "%16sself.db_%s_reffind(&mut obj)?;\n",
 			   "", rs->name) < 0)
 			       return 0;
 		gen_query_checkpass(f, s, 0);
@@ -1426,7 +1426,7 @@ gen_query(const struct search *s, size_t num, FILE *f)
 			return 0;
 		if (rs->flags & STRCT_HAS_NULLREFS)
 		       if (fprintf(f,
-			   "%16sself.db_%s_reffind(&mut obj);\n",
+			   "%16sself.db_%s_reffind(&mut obj)?;\n",
 			   "", rs->name) < 0)
 			       return 0;
 		gen_query_checkpass(f, s, 0);
-- 
2.43.0


From 8216178fc4678517e84c69e6eff903cdcd4cdb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:16 +0000
Subject: [PATCH 093/108] fix: generate valid Rust if all of no roles do not
 export a field

---
 lang-rust.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lang-rust.c b/lang-rust.c
index 6b97b07..55e9e4e 100644
--- a/lang-rust.c
+++ b/lang-rust.c
@@ -249,6 +249,8 @@ gen_field_to_json(const struct field *fd, int first, FILE *f)
 			if (rc < 0)
 				return 0;
 		}
+		if (rc == 0 && fputs("false", f) == EOF)
+			return 0;
 		if (fputs(") {\n", f) == EOF)
 			return 0;
 		tabs += 4;
-- 
2.43.0


From 5999b0adb4e52fcb086298b20fe7bfea4d5299fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:47 +0000
Subject: [PATCH 094/108] fix: borrow null references which are not integers in
 Rust

---
 lang-rust.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lang-rust.c b/lang-rust.c
index 55e9e4e..79c0204 100644
--- a/lang-rust.c
+++ b/lang-rust.c
@@ -990,7 +990,7 @@ gen_reffind(const struct strct *s, FILE *f)
 			continue;
 		if (fd->ref->source->flags & FIELD_NULL) {
 			if (fprintf(f,
-			    "%12sif let Some(nobj) = obj.%s {\n"
+			    "%12sif let Some(ref nobj) = obj.%s {\n"
 	    		    "%16slet sql = stmt::stmt_fmt(stmt::",
 			    "", fd->ref->source->name, "") < 0)
 				return 0;
-- 
2.43.0


From d05c9556a53d115c9d73f1ba9a1c48239d4a3bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:47 +0000
Subject: [PATCH 095/108] fix: do not stop on stored passwords which are not
 hashes in Rust

---
 lang-rust.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lang-rust.c b/lang-rust.c
index 79c0204..9b2243a 100644
--- a/lang-rust.c
+++ b/lang-rust.c
@@ -930,7 +930,10 @@ gen_checkpass(FILE *f, size_t pos, const char *name,
 	if ((fd->flags & FIELD_NULL) &&
 	    fputs(".as_ref().unwrap()", f) == EOF)
 		return 0;
-	if (fputs(").unwrap() {\n", f) == EOF)
+
+	/* Nothing verifies with what isn't a hash. */
+
+	if (fputs(").unwrap_or(false) {\n", f) == EOF)
 		return 0;
 	return 1;
 }
-- 
2.43.0


From 48d564f14d8312197e887e80df387f45fa21d79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:47 +0000
Subject: [PATCH 096/108] fix: look for the password in all rows found by a
 search in Rust

---
 lang-rust.c | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/lang-rust.c b/lang-rust.c
index 9b2243a..e3d1654 100644
--- a/lang-rust.c
+++ b/lang-rust.c
@@ -939,7 +939,7 @@ gen_checkpass(FILE *f, size_t pos, const char *name,
 }
 
 static int
-gen_query_checkpass(FILE *f, const struct search *s, int ret)
+gen_query_checkpass(FILE *f, const struct search *s)
 {
 	size_t		 	 pos = 1;
 	const struct sent	*sent;
@@ -959,10 +959,7 @@ gen_query_checkpass(FILE *f, const struct search *s, int ret)
 		if (!gen_checkpass(f, pos, sent->fname,
 		    sent->op, sent->field))
 			return 0;
-		if (ret && fprintf(f,
-		    "%20sreturn Ok(None);\n%16s}\n", "", "") < 0)
-			return 0;
-		if (!ret && fprintf(f,
+		if (fprintf(f,
 		    "%20scontinue;\n%16s}\n", "", "") < 0)
 			return 0;
 		pos++;
@@ -1365,7 +1362,7 @@ gen_query(const struct search *s, size_t num, FILE *f)
 	switch (s->type) {
 	case STYPE_SEARCH:
 		if (fprintf(f,
-		    "%12sif let Some(row) = rows.next()? {\n"
+		    "%12swhile let Some(row) = rows.next()? {\n"
 		    "%16slet mut i = 0;\n"
 		    "%16slet %sobj = self.db_%s_fill(&row, &mut i)?;\n",
 		    "", "", "",
@@ -1377,7 +1374,7 @@ gen_query(const struct search *s, size_t num, FILE *f)
 			   "%16sself.db_%s_reffind(&mut obj)?;\n",
 			   "", rs->name) < 0)
 			       return 0;
-		gen_query_checkpass(f, s, 1);
+		gen_query_checkpass(f, s);
 		if (fprintf(f,
 		    "%16sreturn Ok(Some(objs::%s {\n"
 		    "%20sdata: obj,\n", "", ret, "") < 0)
@@ -1405,7 +1402,7 @@ gen_query(const struct search *s, size_t num, FILE *f)
 			   "%16sself.db_%s_reffind(&mut obj)?;\n",
 			   "", rs->name) < 0)
 			       return 0;
-		gen_query_checkpass(f, s, 0);
+		gen_query_checkpass(f, s);
 		if (fprintf(f,
 		    "%16scb(objs::%s {\n"
 		    "%20sdata: obj,\n", "", ret, "") < 0)
@@ -1434,7 +1431,7 @@ gen_query(const struct search *s, size_t num, FILE *f)
 			   "%16sself.db_%s_reffind(&mut obj)?;\n",
 			   "", rs->name) < 0)
 			       return 0;
-		gen_query_checkpass(f, s, 0);
+		gen_query_checkpass(f, s);
 		if (fprintf(f,
 		    "%16svec.push(objs::%s {\n"
 		    "%20sdata: obj,\n", "", ret, "") < 0)
-- 
2.43.0


From 7c5e94072258491c0fadb404964f0f176630f0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:36 +0000
Subject: [PATCH 097/108] fix: report failure to write the output

---
 audit-json.c | 3 ++-
 cheader.c    | 3 ++-
 cmanpage.c   | 3 ++-
 csource.c    | 3 ++-
 javascript.c | 3 ++-
 json.c       | 3 ++-
 main.c       | 3 ++-
 mainaudit.c  | 3 ++-
 maindiff.c   | 5 +++--
 nodejs.c     | 3 ++-
 rust.c       | 3 ++-
 sql.c        | 3 ++-
 sqldiff.c    | 7 ++++++-
 xliff.c      | 2 ++
 14 files changed, 33 insertions(+), 14 deletions(-)

diff --git a/audit-json.c b/audit-json.c
index aa8a6d9..083d432 100644
--- a/audit-json.c
+++ b/audit-json.c
@@ -518,7 +518,8 @@ main(int argc, char *argv[])
 	}
 
 	gen_audit_json(cfg, aq, r, standalone);
-	rc = 1;
+	if (!(rc = fflush(stdout) == 0 && !ferror(stdout)))
+		warn(NULL);
 out:
 	ort_write_msg_file(stderr, &cfg->mq);
 	ort_auditq_free(aq);
diff --git a/cheader.c b/cheader.c
index b83027f..5a7ad35 100644
--- a/cheader.c
+++ b/cheader.c
@@ -110,7 +110,8 @@ main(int argc, char *argv[])
 		goto out;
 
 	if ((rc = ort_parse_close(cfg)))
-		if (!(rc = ort_lang_c_header(&args, cfg, stdout)))
+		if (!(rc = ort_lang_c_header(&args, cfg, stdout)) ||
+		    !(rc = fflush(stdout) == 0 && !ferror(stdout)))
 			warn(NULL);
 out:
 	ort_write_msg_file(stderr, &cfg->mq);
diff --git a/cmanpage.c b/cmanpage.c
index 16a2e20..862fc32 100644
--- a/cmanpage.c
+++ b/cmanpage.c
@@ -93,7 +93,8 @@ main(int argc, char *argv[])
 		goto out;
 
 	if ((rc = ort_parse_close(cfg)))
-		if (!(rc = ort_lang_c_manpage(&args, cfg, stdout)))
+		if (!(rc = ort_lang_c_manpage(&args, cfg, stdout)) ||
+		    !(rc = fflush(stdout) == 0 && !ferror(stdout)))
 			warn(NULL);
 out:
 	ort_write_msg_file(stderr, &cfg->mq);
diff --git a/csource.c b/csource.c
index 6400838..3de4546 100644
--- a/csource.c
+++ b/csource.c
@@ -168,7 +168,8 @@ main(int argc, char *argv[])
 		goto out;
 
 	if ((rc = ort_parse_close(cfg)))
-		if (!(rc = ort_lang_c_source(&args, cfg, stdout)))
+		if (!(rc = ort_lang_c_source(&args, cfg, stdout)) ||
+		    !(rc = fflush(stdout) == 0 && !ferror(stdout)))
 			warn(NULL);
 out:
 	ort_write_msg_file(stderr, &cfg->mq);
diff --git a/javascript.c b/javascript.c
index 5bddea4..02f2982 100644
--- a/javascript.c
+++ b/javascript.c
@@ -144,7 +144,8 @@ main(int argc, char *argv[])
 		goto out;
 
 	if ((rc = ort_parse_close(cfg)))
-		if (!(rc = ort_lang_javascript(cfg, &args, stdout)))
+		if (!(rc = ort_lang_javascript(cfg, &args, stdout)) ||
+		    !(rc = fflush(stdout) == 0 && !ferror(stdout)))
 			warn(NULL);
 out:
 	ort_write_msg_file(stderr, &cfg->mq);
diff --git a/json.c b/json.c
index 16178b9..14e37cf 100644
--- a/json.c
+++ b/json.c
@@ -81,7 +81,8 @@ main(int argc, char *argv[])
 		goto out;
 
 	if ((rc = ort_parse_close(cfg)))
-		if (!(rc = ort_lang_json(&args, cfg, stdout)))
+		if (!(rc = ort_lang_json(&args, cfg, stdout)) ||
+		    !(rc = fflush(stdout) == 0 && !ferror(stdout)))
 			warn(NULL);
 out:
 	ort_write_msg_file(stderr, &cfg->mq);
diff --git a/main.c b/main.c
index 98fe232..7486323 100644
--- a/main.c
+++ b/main.c
@@ -74,7 +74,8 @@ main(int argc, char *argv[])
 		goto out;
 
 	if ((rc = ort_parse_close(cfg)))
-		if (!(rc = ort_write_file(stdout, cfg)))
+		if (!(rc = ort_write_file(stdout, cfg)) ||
+		    !(rc = fflush(stdout) == 0 && !ferror(stdout)))
 			warn(NULL);
 out:
 	ort_write_msg_file(stderr, &cfg->mq);
diff --git a/mainaudit.c b/mainaudit.c
index 591dd14..8d4261c 100644
--- a/mainaudit.c
+++ b/mainaudit.c
@@ -263,7 +263,8 @@ main(int argc, char *argv[])
 	}
 
 	audit_write(aq, verb);
-	rc = 1;
+	if (!(rc = fflush(stdout) == 0 && !ferror(stdout)))
+		warn(NULL);
 out:
 	ort_write_msg_file(stderr, &cfg->mq);
 	ort_auditq_free(aq);
diff --git a/maindiff.c b/maindiff.c
index fdc84eb..3cd16bd 100644
--- a/maindiff.c
+++ b/maindiff.c
@@ -168,8 +168,9 @@ main(int argc, char *argv[])
 
 	if (!ort_write_diff_file(stdout, q, 
 	    (const char *const *)&argv[confst], confsz,
-	    (const char *const *)argv, dconfsz)) {
-		rc = -1;
+	    (const char *const *)argv, dconfsz) ||
+	    fflush(stdout) == EOF || ferror(stdout)) {
+		rc = 2;
 		warn(NULL);
 	}
 
diff --git a/nodejs.c b/nodejs.c
index 0463a41..5072965 100644
--- a/nodejs.c
+++ b/nodejs.c
@@ -95,7 +95,8 @@ main(int argc, char *argv[])
 		goto out;
 
 	if ((rc = ort_parse_close(cfg)))
-		if (!(rc = ort_lang_nodejs(&args, cfg, stdout)))
+		if (!(rc = ort_lang_nodejs(&args, cfg, stdout)) ||
+		    !(rc = fflush(stdout) == 0 && !ferror(stdout)))
 			warn(NULL);
 out:
 	ort_write_msg_file(stderr, &cfg->mq);
diff --git a/rust.c b/rust.c
index 20ef3a9..af638aa 100644
--- a/rust.c
+++ b/rust.c
@@ -79,7 +79,8 @@ main(int argc, char *argv[])
 		goto out;
 
 	if ((rc = ort_parse_close(cfg)))
-		if (!(rc = ort_lang_rust(&args, cfg, stdout)))
+		if (!(rc = ort_lang_rust(&args, cfg, stdout)) ||
+		    !(rc = fflush(stdout) == 0 && !ferror(stdout)))
 			warn(NULL);
 out:
 	ort_write_msg_file(stderr, &cfg->mq);
diff --git a/sql.c b/sql.c
index fc4cda4..6269533 100644
--- a/sql.c
+++ b/sql.c
@@ -76,7 +76,8 @@ main(int argc, char *argv[])
 		goto out;
 
 	if ((rc = ort_parse_close(cfg)))
-		if (!(rc = ort_lang_sql(NULL, cfg, stdout)))
+		if (!(rc = ort_lang_sql(NULL, cfg, stdout)) ||
+		    !(rc = fflush(stdout) == 0 && !ferror(stdout)))
 			warn(NULL);
 out:
 	ort_write_msg_file(stderr, &cfg->mq);
diff --git a/sqldiff.c b/sqldiff.c
index a0eb664..ad8a13d 100644
--- a/sqldiff.c
+++ b/sqldiff.c
@@ -153,7 +153,12 @@ main(int argc, char *argv[])
 		goto out;
 	}
 
-	if (!(rc = ort_lang_diff_sql(NULL, q, destruct, stdout, &mq)))
+	rc = ort_lang_diff_sql(NULL, q, destruct, stdout, &mq);
+	if (rc > 0 && (fflush(stdout) == EOF || ferror(stdout)))
+		rc = -1;
+	if (rc < 0)
+		rc = 0;
+	if (!rc)
 		warn(NULL);
 out:
 	ort_write_msg_file(stderr, &cfg->mq);
diff --git a/xliff.c b/xliff.c
index 10daf1d..d072f6a 100644
--- a/xliff.c
+++ b/xliff.c
@@ -175,6 +175,8 @@ main(int argc, char *argv[])
 		break;
 	}
 
+	if (rc > 0 && (fflush(stdout) == EOF || ferror(stdout)))
+		rc = 0;
 	if (rc < 0)
 		rc = 0;
 	if (!rc)
-- 
2.43.0


From 350683364f03ce490e167cbf9f7a4cdbe032aa9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:45 +0000
Subject: [PATCH 098/108] fix: stop on failing allocations when resolving
 queries

---
 linker_resolve.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/linker_resolve.c b/linker_resolve.c
index fa97397..cfc28dd 100644
--- a/linker_resolve.c
+++ b/linker_resolve.c
@@ -1024,20 +1024,32 @@ linker_resolve(struct config *cfg)
 	TAILQ_FOREACH(r, &cfg->priv->rq, entries)
 		switch (r->type) {
 		case RESOLVE_AGGR:
-			fail += !resolve_struct_aggr
+			rc = resolve_struct_aggr
 				(cfg, &r->struct_aggr);
+			if (rc < 0)
+				return 0;
+			fail += !rc;
 			break;
 		case RESOLVE_DISTINCT:
-			fail += !resolve_struct_distinct
+			rc = resolve_struct_distinct
 				(cfg, &r->struct_distinct);
+			if (rc < 0)
+				return 0;
+			fail += !rc;
 			break;
 		case RESOLVE_GROUPROW:
-			fail += !resolve_struct_grouprow
+			rc = resolve_struct_grouprow
 				(cfg, &r->struct_grouprow);
+			if (rc < 0)
+				return 0;
+			fail += !rc;
 			break;
 		case RESOLVE_ORDER:
-			fail += !resolve_struct_order
+			rc = resolve_struct_order
 				(cfg, &r->struct_order);
+			if (rc < 0)
+				return 0;
+			fail += !rc;
 			break;
 		case RESOLVE_ROLEMAP:
 			if (r->struct_rolemap.type == ROLEMAP_NOEXPORT &&
-- 
2.43.0


From 9b7c352b7ba5285ab1d930fa3b1cbb494b476d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:07 +0000
Subject: [PATCH 099/108] fix: don't ignore failures when writing the C
 functions

---
 lang-c-source.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/lang-c-source.c b/lang-c-source.c
index fcbc2a0..f69e32d 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -2877,7 +2877,8 @@ ort_lang_c_source(const struct ort_lang_c *args,
 	size_t			 sz;
 	int			 need_kcgi = 0,
 				 need_kcgijson = 0,
-				 need_sqlbox = 0;
+				 need_sqlbox = 0,
+				 rc = 1;
 	struct filldepq		 fq;
 	struct filldep		*fd;
 
@@ -3139,17 +3140,20 @@ ort_lang_c_source(const struct ort_lang_c *args,
 				return 0;
 
 	TAILQ_FOREACH(p, &cfg->sq, entries)
-		gen_functions(f, cfg, p,
-			args->flags & ORT_LANG_C_JSON_KCGI,
-			args->flags & ORT_LANG_C_JSON_JSMN,
-			args->flags & ORT_LANG_C_VALID_KCGI,
-			args->flags & ORT_LANG_C_DB_SQLBOX, &fq);
+		if (!gen_functions(f, cfg, p,
+		    args->flags & ORT_LANG_C_JSON_KCGI,
+		    args->flags & ORT_LANG_C_JSON_JSMN,
+		    args->flags & ORT_LANG_C_VALID_KCGI,
+		    args->flags & ORT_LANG_C_DB_SQLBOX, &fq)) {
+			rc = 0;
+			break;
+		}
 
 	while ((fd = TAILQ_FIRST(&fq)) != NULL) {
 		TAILQ_REMOVE(&fq, fd, entries);
 		free(fd);
 	}
 
-	return 1;
+	return rc;
 }
 
-- 
2.43.0


From ae31790c25c61acf936b873cb01e3978aed800a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:41 +0000
Subject: [PATCH 100/108] fix: give translation units unused identifiers when
 updating

---
 lang-xliff.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lang-xliff.c b/lang-xliff.c
index a9e5157..fcdab5b 100644
--- a/lang-xliff.c
+++ b/lang-xliff.c
@@ -716,7 +716,7 @@ xliff_update_unit(struct msgq *mq, const struct labelq *q,
 	const char *type, struct xliffset *x, const struct pos *pos)
 {
 	const struct label		*l;
-	size_t			 i;
+	size_t			 i, id;
 	struct xliffunit	*u;
 	char			 nbuf[32];
 	void			*pp;
@@ -753,8 +753,18 @@ xliff_update_unit(struct msgq *mq, const struct labelq *q,
 			return -1;
 		x->u = pp;
 		u = &x->u[x->usz++];
-		snprintf(nbuf, sizeof(nbuf), "%zu", x->usz);
 		memset(u, 0, sizeof(struct xliffunit));
+
+		/* Make sure the identifier isn't already used. */
+
+		id = x->usz;
+		do {
+			snprintf(nbuf, sizeof(nbuf), "%zu", id++);
+			for (i = 0; i < x->usz - 1; i++)
+				if (strcmp(x->u[i].name, nbuf) == 0)
+					break;
+		} while (i < x->usz - 1);
+
 		if ((u->name = strdup(nbuf)) == NULL)
 			return -1;
 		if ((u->source = strdup(l->label)) == NULL)
-- 
2.43.0


From 3fe65c86284a11df38915414d3edc399b3379587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:03 +0000
Subject: [PATCH 101/108] fix: give labels joined from translations a position

---
 lang-xliff.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lang-xliff.c b/lang-xliff.c
index fcdab5b..4f07481 100644
--- a/lang-xliff.c
+++ b/lang-xliff.c
@@ -700,6 +700,7 @@ xliff_join_unit(struct config *cfg, struct labelq *q, int copy,
 	if ((l = calloc(1, sizeof(struct label))) == NULL)
 		return -1;
 	l->lang = lang;
+	l->pos = *pos;
 	if ((l->label = label_text(targ)) == NULL) {
 		free(l);
 		return -1;
-- 
2.43.0


From 3a672226ebd138952016931ee477159eada594f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:45 +0000
Subject: [PATCH 102/108] fix: queue messages in the order they arise

---
 log.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/log.c b/log.c
index 6964efd..ec9bfda 100644
--- a/log.c
+++ b/log.c
@@ -47,7 +47,7 @@ ort_log(struct msgq *mq, enum msgtype type,
 		return;
 	}
 
-	TAILQ_INSERT_HEAD(mq, m, entries);
+	TAILQ_INSERT_TAIL(mq, m, entries);
 
 	m->type = type;
 	m->er = er;
-- 
2.43.0


From bd9b2ee5ace40cdf4f690555ec7f820acf1d38e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:45 +0000
Subject: [PATCH 103/108] fix: report unknown enumerations and bit-fields where
 they are used

---
 linker_resolve.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/linker_resolve.c b/linker_resolve.c
index cfc28dd..700efce 100644
--- a/linker_resolve.c
+++ b/linker_resolve.c
@@ -456,7 +456,7 @@ resolve_field_enum(struct config *cfg, struct field_enum *r)
 			return 1;
 		}
 
-	gen_errx(cfg, &r->result->parent->pos, "unknown enum type");
+	gen_errx(cfg, &r->result->pos, "unknown enum type");
 	return 0;
 }
 
@@ -783,7 +783,7 @@ resolve_field_bits(struct config *cfg, struct field_bits *r)
 			return 1;
 		}
 
-	gen_errx(cfg, &r->result->parent->pos, "unknown bitfield type");
+	gen_errx(cfg, &r->result->pos, "unknown bitfield type");
 	return 0;
 }
 
-- 
2.43.0


From 1d74bb5c960de025135a58f7245b9e55cf7229b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:45 +0000
Subject: [PATCH 104/108] fix: report duplicate operation roles where they are
 given

---
 linker.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/linker.c b/linker.c
index 9c32c87..0927ab9 100644
--- a/linker.c
+++ b/linker.c
@@ -444,7 +444,7 @@ check_unique_roles(struct config *cfg, const struct rolemap *rm)
 	TAILQ_FOREACH(rs, &rm->rq, entries)
 		TAILQ_FOREACH(rrs, &rm->rq, entries)
 			if (rs != rrs && rs->role == rrs->role) {
-				gen_errx(cfg, &rrs->role->pos,
+				gen_errx(cfg, &rrs->pos,
 					"duplicate operation role");
 				errs++;
 			}
-- 
2.43.0


From 055d1e8fc4e644b996232f491eeab8fae1de9ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:02 +0000
Subject: [PATCH 105/108] fix: show dates as in UTC, as they are stored and
 given

---
 ortPrivate.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ortPrivate.ts b/ortPrivate.ts
index 637cbdf..91f2a6b 100644
--- a/ortPrivate.ts
+++ b/ortPrivate.ts
@@ -791,9 +791,9 @@
 
 		/* Make sure to zero-pad the digits. */
 
-		const year = d.getFullYear();
-		const mo = d.getMonth() + 1;
-		const day = d.getDate();
+		const year = d.getUTCFullYear();
+		const mo = d.getUTCMonth() + 1;
+		const day = d.getUTCDate();
 		const full =
 			(year < 0 || year > 999 ? '' : year > 99 ? '0' :
 			 year > 9 ? '00' : '000') + year + '-' +
-- 
2.43.0


From 4f04a1d95a51042b4ffce1a2453e89177186bc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:02 +0000
Subject: [PATCH 106/108] fix: list bit-fields in the order of their names

---
 ort-json.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ort-json.ts b/ort-json.ts
index cae0623..c3a84e3 100644
--- a/ort-json.ts
+++ b/ort-json.ts
@@ -1071,12 +1071,12 @@ namespace ortJson {
 				const tmpl: HTMLElement =
 					<HTMLElement>list[i].children[0];
 				this.clr(list[i]);
-				for (const name in this.obj.bq) {
+				for (let j: number = 0; j < keys.length; j++) {
 					const cln: HTMLElement = 
 						<HTMLElement>
 						tmpl.cloneNode(true);
 					this.fillBitfObj(cln, 
-						this.obj.bq[name], cb, arg);
+						this.obj.bq[keys[j]], cb, arg);
 					list[i].appendChild(cln);
 				}
 				this.show(list[i]);
-- 
2.43.0


From b1b0a9ce62a2b84762b49b34fb5d55f27b32066a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:02 +0000
Subject: [PATCH 107/108] fix: pass over lists without a template, as elsewhere

---
 ort-json.ts | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ort-json.ts b/ort-json.ts
index c3a84e3..46a336f 100644
--- a/ort-json.ts
+++ b/ort-json.ts
@@ -1254,6 +1254,8 @@ namespace ortJson {
 			const list: HTMLElement[] = 
 				this.list(e, 'config-eitems');
 			for (let i: number = 0; i < list.length; i++) {
+				if (list[i].children.length === 0)
+					continue;
 				const tmpl: HTMLElement = 
 					<HTMLElement>list[i].children[0];
 				this.clr(list[i]);
@@ -1347,6 +1349,8 @@ namespace ortJson {
 			const list: HTMLElement[] = 
 				this.list(e, 'config-' + name + '-labels');
 			for (let i: number = 0; i < list.length; i++) {
+				if (list[i].children.length === 0)
+					continue;
 				const tmpl: HTMLElement = 
 					<HTMLElement>list[i].children[0];
 				this.clr(list[i]);
@@ -1406,6 +1410,8 @@ namespace ortJson {
 			const list: HTMLElement[] = 
 				this.list(e, 'config-bitems');
 			for (let i: number = 0; i < list.length; i++) {
+				if (list[i].children.length === 0)
+					continue;
 				const tmpl: HTMLElement = 
 					<HTMLElement>list[i].children[0];
 				this.clr(list[i]);
-- 
2.43.0


From ee1bff9a4a921b893bb708a30bd7398680038f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:02 +0000
Subject: [PATCH 108/108] fix: hide the list of unique tuples when there are
 none

---
 ort-json.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ort-json.ts b/ort-json.ts
index 46a336f..0ad74ec 100644
--- a/ort-json.ts
+++ b/ort-json.ts
@@ -1724,6 +1724,7 @@ namespace ortJson {
 			if (strct.nq.length) {
 				this.showcl(e, 'config-uniques-has');
 				this.hidecl(e, 'config-uniques-none');
+				this.showcl(e, 'config-uniques');
 				const list: HTMLElement[] = 
 					this.list(e, 'config-uniques');
 				for (let i: number = 0; i < list.length; i++)
@@ -1731,6 +1732,7 @@ namespace ortJson {
 			} else {
 				this.hidecl(e, 'config-uniques-has');
 				this.showcl(e, 'config-uniques-none');
+				this.hidecl(e, 'config-uniques');
 			}
 
 			this.fillUpdateClassObj(e, 'deletes', strct, strct.dq, cb, arg);
-- 
2.43.0

