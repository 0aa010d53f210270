/* Stand-in for the parts of kcgi(3) used by ort-c-source(1) output. */
#ifndef KCGI_H
#define KCGI_H
#include <sys/types.h>
#include <stddef.h>
#include <stdint.h>
enum kpairtype { KPAIR_INTEGER, KPAIR_STRING, KPAIR_DOUBLE, KPAIR__MAX };
enum kpairstate { KPAIR_UNCHECKED, KPAIR_VALID, KPAIR_INVALID };
struct kpair {
	char *key; size_t keypos; char *val; size_t valsz; char *file; char *ctype; char *xcode; size_t ctypepos;
	struct kpair *next; enum kpairstate state; enum kpairtype type;
	union parsed { int64_t i; const char *s; double d; } parsed;
};
struct kvalid { int (*valid)(struct kpair *); const char *name; };
int kvalid_bit(struct kpair *);
int kvalid_date(struct kpair *);
int kvalid_double(struct kpair *);
int kvalid_email(struct kpair *);
int kvalid_int(struct kpair *);
int kvalid_string(struct kpair *);
int kvalid_stringne(struct kpair *);
#endif
