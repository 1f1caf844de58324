/* Call sites that go through the wrapper macros of duma.h; the #line numbers
 * are what the diagnostics have to name. */
#include <stdlib.h>
#include <string.h>
#include <malloc.h>
#include "duma.h"
#include "exec.h"
#line 101 "macro_site.c"
void *xm_malloc(size_t n) { return malloc(n); }
void *xm_calloc(size_t a, size_t b) { return calloc(a, b); }
void xm_free(void *p) { free(p); }
void *xm_realloc(void *p, size_t n) { return realloc(p, n); }
void *xm_memalign(size_t a, size_t n) { return memalign(a, n); }
int xm_posix_memalign(void **pp, size_t a, size_t n) { return posix_memalign(pp, a, n); }
void *xm_valloc(size_t n) { return valloc(n); }
char *xm_strdup(const char *s) { return strdup(s); }
size_t xm_usable(void *p) { return malloc_usable_size(p); }
void *xm_memcpy(void *d, const void *s, size_t n) { return memcpy(d, s, n); }
void *xm_memmove(void *d, const void *s, size_t n) { return memmove(d, s, n); }
char *xm_strcpy(char *d, const char *s) { return strcpy(d, s); }
char *xm_strncpy(char *d, const char *s, size_t n) { return strncpy(d, s, n); }
char *xm_strcat(char *d, const char *s) { return strcat(d, s); }
char *xm_strncat(char *d, const char *s, size_t n) { return strncat(d, s, n); }
void xm_check(void *p) { DUMA_CHECK(p); }
void xm_checkall(void) { DUMA_CHECKALL(); }
void xm_set(int what, int v) {
  if (what == 0) { DUMA_SET_ALIGNMENT(v); }
  if (what == 1) { DUMA_SET_PROTECT_BELOW(v); }
  if (what == 2) { DUMA_SET_FILL(v); }
}
void xm_newframe(void) { DUMA_newFrame(); }
void xm_delframe(void) { DUMA_delFrame(); }
