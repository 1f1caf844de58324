/* shared between the executor's translation units */
#ifndef VEXEC_H
#define VEXEC_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
/* C++ side; exc: 0 none, 1 std::bad_alloc, 2 any other exception */
void *x_new(int api, size_t n, int fl, const char *file, int line, int *exc);
void x_delete(int api, void *p, int fl, const char *file, int line);
void x_set_handler(int mode, int k);
int x_handler_calls(void);
int x_handler_is(void);
void *x_old_new(int k, size_t n, int *exc);
void x_old_del(int k, void *p);
void *x_tree_node(int i);
void x_tree(int n, const long *v);
int x_ctor(int which, int mode);
void x_lift_faults(void);
void x_perturb(void);
void x_note(void);
long x_exotic(int which, long n);
/* macro call sites (C) */
void *xm_malloc(size_t n);
void *xm_calloc(size_t a, size_t b);
void xm_free(void *p);
void *xm_realloc(void *p, size_t n);
void *xm_memalign(size_t a, size_t n);
int xm_posix_memalign(void **pp, size_t a, size_t n);
void *xm_valloc(size_t n);
char *xm_strdup(const char *s);
size_t xm_usable(void *p);
void *xm_memcpy(void *d, const void *s, size_t n);
void *xm_memmove(void *d, const void *s, size_t n);
char *xm_strcpy(char *d, const char *s);
char *xm_strncpy(char *d, const char *s, size_t n);
char *xm_strcat(char *d, const char *s);
char *xm_strncat(char *d, const char *s, size_t n);
void xm_check(void *p);
void xm_checkall(void);
void xm_set(int what, int v);
void xm_newframe(void);
void xm_delframe(void);
#ifdef __cplusplus
}
#endif
#endif
