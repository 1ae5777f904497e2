/* stands in for a header of another repository (cee-utils) that sqlite3/cee_dbm.c includes; the harness defines the function */
#ifndef CEE_UTILS_H
#define CEE_UTILS_H
#include <stddef.h>
char *cee_load_whole_file(const char *filename, size_t *len);
#endif
