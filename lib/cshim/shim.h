#ifndef SHIM_H
#define SHIM_H
#include <sqlite3.h>
extern const char *shim_schema;
extern sqlite3 *shim_db;
extern unsigned int shim_errs;
extern int shim_lastmode;
#endif
