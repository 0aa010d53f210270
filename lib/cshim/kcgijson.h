/* Stand-in for kcgijson(3): prints to the FILE in the request. */
#ifndef KCGIJSON_H
#define KCGIJSON_H
#include <stdio.h>
#include <stdint.h>
struct kjsonreq { FILE *f; int depth; struct { int type; int n; } st[64]; };
enum kcgi_err { KCGI_OK, KCGI_ENOMEM };
void kjson_open(struct kjsonreq *, FILE *);
int kjson_close(struct kjsonreq *);
enum kcgi_err kjson_array_open(struct kjsonreq *);
enum kcgi_err kjson_arrayp_open(struct kjsonreq *, const char *);
enum kcgi_err kjson_array_close(struct kjsonreq *);
enum kcgi_err kjson_obj_open(struct kjsonreq *);
enum kcgi_err kjson_objp_open(struct kjsonreq *, const char *);
enum kcgi_err kjson_obj_close(struct kjsonreq *);
enum kcgi_err kjson_putintp(struct kjsonreq *, const char *, int64_t);
enum kcgi_err kjson_putintstrp(struct kjsonreq *, const char *, int64_t);
enum kcgi_err kjson_putdoublep(struct kjsonreq *, const char *, double);
enum kcgi_err kjson_putstringp(struct kjsonreq *, const char *, const char *);
enum kcgi_err kjson_putnullp(struct kjsonreq *, const char *);
enum kcgi_err kjson_putboolp(struct kjsonreq *, const char *, int);
#endif
