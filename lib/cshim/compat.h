/* What a system's own headers provide to ort-c-source(1) output. */
#ifndef SHIM_COMPAT_H
#define SHIM_COMPAT_H
#include <sys/types.h>
#include <sys/cdefs.h>
int crypt_newhash(const char *, const char *, char *, size_t);
int crypt_checkpass(const char *, const char *);
#endif
