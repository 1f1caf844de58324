/* Executor: interprets an op script against the real library and reports what
 * it observes.  No stdio, no allocation of its own.  See DESIGN.md.
 * fd 3: script, fd 4: log. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <sched.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <malloc.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include "duma.h"
#include "noduma.h"
#include "exec.h"
#include "coop.h"

/* the internal printing functions, as far as the library has them */
extern void DUMA_Abort(const char *pattern, ...) __attribute__((weak));
extern void DUMA_Print(const char *pattern, ...) __attribute__((weak));
extern void DUMA_get_sem(void) __attribute__((weak));
extern int DUMA_rel_sem(int) __attribute__((weak));
extern void DUMA_Exit(const char *pattern, ...) __attribute__((weak));
extern void DUMA_sprintf(char *buffer, const char *pattern, ...) __attribute__((weak));

#undef malloc_usable_size

#define PAGE 4096UL
#ifndef VEXEC_TIMEOUT
#define VEXEC_TIMEOUT 20
#endif
#ifndef DUMA_NO_CPP_SUPPORT
#define VEXEC_CPP 1
#endif
typedef unsigned char u8;

/* ------------------------------------------------------------------ *
 * system-call layer: record, inject, perturb                          *
 * ------------------------------------------------------------------ */
typedef struct { uintptr_t lo, hi; } Rg;
static Rg rg[1 << 16];
static int nrg;
static volatile int rglock;
static long mm_skip = -1, mm_cnt, mm_min, mm_limit, mm_total, mm_calls, mm_failed, mp_fail = -1, mu_skip, mu_cnt;
static long peak;
static uintptr_t mm_bump; /* when set, no address is ever mapped twice */
static volatile int mm_reuse; /* when set, new mappings go where something was unmapped */
static Rg hole[4096];
static int nhole;
static long mm_reused;
static volatile int jitter;
static unsigned jitter_seed;
static __thread unsigned jrng;

static void rl(void) { while (__sync_lock_test_and_set(&rglock, 1)) sched_yield(); }
static void ru(void) { __sync_lock_release(&rglock); }

static void perturb(void) {
  unsigned v;
  if (sched_active) { sched_point(); return; }
  if (!jitter) return;
  jrng = jrng * 1103515245u + 12345u;
  v = (jrng >> 16) & 0xff;
  if (v < (unsigned)jitter) {
    struct timespec ts = {0, 1000L * (1 + (jrng >> 8) % 60)};
    syscall(SYS_nanosleep, &ts, 0);
  } else if (v < (unsigned)jitter * 3)
    syscall(SYS_sched_yield);
}

void x_perturb(void) { perturb(); }

static void rg_add(uintptr_t lo, uintptr_t hi) {
  rl();
  if (nrg && rg[nrg - 1].hi == lo) rg[nrg - 1].hi = hi;
  else if (nrg < (1 << 16) - 2) { rg[nrg].lo = lo; rg[nrg].hi = hi; nrg++; }
  mm_total += hi - lo;
  if (mm_total > peak) peak = mm_total;
  ru();
}
static void rg_del(uintptr_t lo, uintptr_t hi) {
  int i;
  rl();
  for (i = 0; i < nrg; i++) {
    uintptr_t a = rg[i].lo, b = rg[i].hi;
    if (b <= lo || a >= hi) continue;
    mm_total -= (b < hi ? b : hi) - (a > lo ? a : lo);
    if (a < lo && b > hi) {
      rg[i].hi = lo;
      rg[nrg].lo = hi; rg[nrg].hi = b; nrg++;
    } else if (a < lo) rg[i].hi = lo;
    else if (b > hi) rg[i].lo = hi;
    else { rg[i] = rg[--nrg]; i--; }
  }
  ru();
}

static uintptr_t rg_end(uintptr_t a) {
  uintptr_t r = 0;
  int i;
  rl();
  for (i = 0; i < nrg; i++) if (rg[i].lo <= a && a < rg[i].hi) r = rg[i].hi;
  ru();
  return r;
}

/* remember what is unmapped, joining neighbours */
static void hole_add(uintptr_t lo, uintptr_t hi) {
  int i;
  rl();
  for (i = 0; i < nhole; i++)
    if (hole[i].lo == hi || hole[i].hi == lo) {
      if (hole[i].lo < lo) lo = hole[i].lo;
      if (hole[i].hi > hi) hi = hole[i].hi;
      hole[i--] = hole[--nhole];
    }
  if (nhole == 4096) nhole = 0;
  hole[nhole].lo = lo; hole[nhole].hi = hi; nhole++;
  ru();
}
static uintptr_t hole_take(size_t l) {
  int i, best = -1;
  uintptr_t a = 0;
  l = (l + PAGE - 1) & ~(PAGE - 1);
  rl();
  for (i = 0; i < nhole; i++)
    if (hole[i].hi - hole[i].lo >= l && (best < 0 || hole[i].hi - hole[i].lo < hole[best].hi - hole[best].lo)) best = i;
  if (best >= 0) {
    a = hole[best].lo;
    hole[best].lo += l;
    if (hole[best].lo == hole[best].hi) hole[best] = hole[--nhole];
  }
  ru();
  return a;
}

/* mappings from al_min bytes on share a few pieces of memory, except for
 * the pieces at either end and around 2 and 4 GB, by offset and address */
static size_t al_min;
#define ALPIECE (4UL << 20)
static void alias(uintptr_t p, size_t l, int pr) {
  static int fd = -1;
  size_t k, n = l / ALPIECE, g;
  if (fd < 0) {
    fd = (int)syscall(SYS_memfd_create, "alias", 0);
    if (fd < 0 || syscall(SYS_ftruncate, fd, ALPIECE)) _exit(95);
  }
  for (k = 2; k + 2 < n; k++) {
    size_t o = k * ALPIECE, mine = 0;
    for (g = 1; g <= 4; g++)
      if (o + 2 * ALPIECE >= g << 31 && o <= (g << 31) + ALPIECE) mine = 1;
    /* and where a block of that alignment would be */
    g = (p + o) & ((1UL << 31) - 1);
    if (g <= ALPIECE || g + 2 * ALPIECE >= 1UL << 31) mine = 1;
    if (!mine && (uintptr_t)syscall(SYS_mmap, p + o, ALPIECE, pr, MAP_SHARED | MAP_FIXED, fd, 0) != p + o) _exit(94);
  }
}

/* VX_FAIL=skip,count refuses mappings from the start of the program on */
extern char **environ;
static void early(void) {
  static int done;
  const char *e;
  long v[2] = {0, 0};
  int i, k = 0;
  if (done || !environ) return;
  done = 1;
  for (i = 0; (e = environ[i]); i++) {
    if (e[0] != 'V' || e[1] != 'X' || e[2] != '_' || e[3] != 'F' || e[7] != '=') continue;
    for (e += 8; *e; e++)
      if (*e == ',') k = 1;
      else v[k] = v[k] * 10 + *e - '0';
    mm_skip = v[0];
    mm_cnt = v[1];
  }
}

void *mmap(void *a, size_t l, int pr, int fl, int fd, off_t o) {
  long r;
  uintptr_t h;
  perturb();
  early();
  mm_calls++;
  if ((mm_skip >= 0 || mm_cnt) && (long)l > mm_min) {
    if (mm_skip > 0) mm_skip--;
    else if (mm_cnt) { mm_cnt--; mm_skip = 0; mm_failed++; errno = ENOMEM; return MAP_FAILED; }
  }
  if (mm_limit && (l > (size_t)mm_limit || mm_total + (long)l > mm_limit)) { mm_failed++; errno = ENOMEM; return MAP_FAILED; }
  if (mm_bump && !(fl & MAP_FIXED))
    a = (void *)__sync_fetch_and_add(&mm_bump, (l + PAGE - 1) & ~(PAGE - 1));
  r = -1;
  if (mm_reuse && !(fl & MAP_FIXED) && (h = hole_take(l))) {
    r = syscall(SYS_mmap, h, l, pr, fl | MAP_FIXED_NOREPLACE, fd, o);
    if (r != -1 && (uintptr_t)r != h) { syscall(SYS_munmap, r, l); r = -1; }
    if (r != -1) mm_reused++;
  }
  if (r == -1) r = syscall(SYS_mmap, a, l, pr, fl, fd, o);
  if (r == -1) { mm_failed++; return MAP_FAILED; }
  if (al_min && l >= al_min) alias((uintptr_t)r, l, pr);
  rg_add((uintptr_t)r, (uintptr_t)r + ((l + PAGE - 1) & ~(PAGE - 1)));
  perturb();
  return (void *)r;
}
void *mmap64(void *a, size_t l, int pr, int fl, int fd, off64_t o) { return mmap(a, l, pr, fl, fd, o); }
int munmap(void *a, size_t l) {
  int r;
  perturb();
  if (mu_cnt > 0 && (mu_skip > 0 ? (mu_skip--, 0) : 1)) { mu_cnt--; errno = ENOMEM; return -1; }
  r = (int)syscall(SYS_munmap, a, l);
  if (r == 0) {
    rg_del((uintptr_t)a, (uintptr_t)a + ((l + PAGE - 1) & ~(PAGE - 1)));
    if (mm_reuse) hole_add((uintptr_t)a, (uintptr_t)a + ((l + PAGE - 1) & ~(PAGE - 1)));
  }
  perturb();
  return r;
}
int mprotect(void *a, size_t l, int pr) {
  int r;
  perturb();
  if (mp_fail > 0 && --mp_fail == 0) { errno = ENOMEM; return -1; }
  r = (int)syscall(SYS_mprotect, a, l, pr);
  perturb();
  return r;
}
/* short and interrupted writes; 1: at most k bytes a time, 2: interrupted
 * before every k-th call, 3: both; 4: another process appends to the same
 * file right before each */
static int wi_mode, wi_k, wi_n;
static void other_writer(int fd) {
  static int seq;
  char name[64], line[64];
  long o;
  sprintf(name, "/proc/self/fd/%d", fd);
  o = syscall(SYS_openat, AT_FDCWD, name, O_WRONLY | O_APPEND, 0);
  if (o < 0) return;
  sprintf(line, "\n@@other %d@@\n", seq++);
  if (syscall(SYS_write, o, line, strlen(line)) < 0) seq--;
  syscall(SYS_close, o);
}
ssize_t write(int fd, const void *p, size_t n) {
  if (wi_mode == 4 && fd > 2) other_writer(fd);
  if ((wi_mode & 2) && ++wi_n % wi_k == 0) { errno = EINTR; return -1; }
  if ((wi_mode & 1) && n > (size_t)wi_k) n = (size_t)wi_k;
  return syscall(SYS_write, fd, p, n);
}
void x_lift_faults(void) { mm_skip = -1; mm_cnt = 0; mm_limit = 0; mm_min = 0; }

/* ------------------------------------------------------------------ *
 * logging                                                              *
 * ------------------------------------------------------------------ */
typedef struct { char *buf; size_t len, cap; int fd; } Log;
static __thread Log *lg;
static char mainbuf[1 << 21];
static Log mainlog = {mainbuf, 0, sizeof mainbuf, 4};

static void lflush(void) {
  size_t o = 0;
  if (lg->fd < 0) return;
  while (o < lg->len) {
    long r = syscall(SYS_write, lg->fd, lg->buf + o, lg->len - o);
    if (r <= 0) break;
    o += r;
  }
  lg->len = 0;
}
static void lc(char c) { if (lg->len + 1 >= lg->cap) lflush(); if (lg->len + 1 < lg->cap) lg->buf[lg->len++] = c; }
static void ls(const char *s) { while (*s) lc(*s++); }
static void lu(unsigned long v) {
  char b[24]; int i = 0;
  do b[i++] = '0' + v % 10; while (v /= 10);
  while (i) lc(b[--i]);
}
static void li(long v) { lc(' '); if (v < 0) { lc('-'); lu(-(unsigned long)v); } else lu(v); }
static void lul(unsigned long v) { lc(' '); lu(v); }
static void lend(void) { lc('\n'); lflush(); }

/* ------------------------------------------------------------------ *
 * probes                                                               *
 * ------------------------------------------------------------------ */
static __thread sigjmp_buf pj;
static __thread volatile int probing;


static void on_segv(int sig, siginfo_t *si, void *uc) {
  (void)uc;
  if (probing) { probing = 0; siglongjmp(pj, 1); }
  if (lg) { lg->fd = 4; ls("FAULT"); li(sig); lul((unsigned long)si->si_addr); lend(); }
  signal(sig, SIG_DFL);
}
static void on_ill(int sig) { (void)sig; }

static int rd(const volatile u8 *p, u8 *out) {
  if (sigsetjmp(pj, 0)) return 0;
  probing = 1;
  *out = *p;
  probing = 0;
  return 1;
}
static int wr(volatile u8 *p, u8 v) {
  if (sigsetjmp(pj, 0)) return 0;
  probing = 1;
  *p = v;
  probing = 0;
  return 1;
}
/* bit 0 readable, bit 1 writable (same value written back) */
static int acc(volatile u8 *p) {
  u8 v = 0; int r = rd(p, &v);
  /* an unreadable byte is written with 0: if that succeeds it is a finding anyway */
  return r | (wr(p, v) << 1);
}

/* ------------------------------------------------------------------ *
 * blocks and shadows                                                   *
 * ------------------------------------------------------------------ */
#define NREG 140000
typedef struct { u8 *p; size_t n; u8 *sh; size_t cap; } Blk;
static Blk blk[NREG];
static u8 *shbase;
static size_t shoff;
#define SHMAX (1UL << 36)
#define HUGE (8UL << 20) /* larger blocks are sampled */

static void shadow(Blk *b, size_t n) {
  if (n > b->cap) {
    size_t need = (n + 63) & ~63UL, o;
    o = __sync_fetch_and_add(&shoff, need);
    if (o + need > SHMAX) _exit(97);
    b->sh = shbase + o;
    b->cap = need;
  }
}
static u8 pat(unsigned long seed, size_t i) {
  unsigned long x = (i + 1) * 0x9E3779B97F4A7C15UL ^ seed * 0xD1B54A32D192ED03UL;
  return (u8)(x >> 33);
}
/* byte copies that do not go through the functions under test */
static void cpy(volatile u8 *d, const volatile u8 *s, size_t n) { while (n--) *d++ = *s++; }

#define MAXF 64
static const char *fname[MAXF];

static char srcmain[1 << 20];
static __thread char *srcbuf = srcmain;
static const char *mkstr(size_t n) {
  size_t i;
  if (n >= sizeof srcmain) n = sizeof srcmain - 1;
  for (i = 0; i < n; i++) srcbuf[i] = (char)('A' + (i * 7 + n) % 57);
  srcbuf[n] = 0;
  return srcbuf;
}

#ifndef DUMA_NO_LEAKDETECTION
#define FLARGS , f, ln
#define FLN , const char *f, int ln
#else
#define FLARGS
#endif

static void *do_alloc(int api, int fl, size_t a, size_t b, const char *f, int ln, long *rc, int *exc) {
  void *p = 0;
  (void)f; (void)ln;
  *rc = 0; *exc = 0;
  errno = 0;
  if (api >= 10 && api < 16) {
#ifdef VEXEC_CPP
    p = x_new(api, a, fl, f, ln, exc);
#endif
    return p;
  }
  switch (api) {
  case 0: p = fl == 0 ? malloc(a) : fl == 2 ? xm_malloc(a) : _duma_malloc(a FLARGS); break;
  case 1: p = fl == 0 ? calloc(a, b) : fl == 2 ? xm_calloc(a, b) : _duma_calloc(a, b FLARGS); break;
  case 2: p = fl == 0 ? memalign(b, a) : fl == 2 ? xm_memalign(b, a) : _duma_memalign(b, a FLARGS); break;
  case 3:
    p = (void *)0x5A5A5A50;
    *rc = fl == 0 ? posix_memalign(&p, b, a) : fl == 2 ? xm_posix_memalign(&p, b, a) : _duma_posix_memalign(&p, b, a FLARGS);
    break;
  case 4: p = fl == 0 ? valloc(a) : fl == 2 ? xm_valloc(a) : _duma_valloc(a FLARGS); break;
  case 5: p = fl == 0 ? realloc(0, a) : fl == 2 ? xm_realloc(0, a) : _duma_realloc(0, a FLARGS); break;
  case 6: {
    const char *s = mkstr(a);
    p = fl == 0 ? strdup(s) : fl == 2 ? xm_strdup(s) : _duma_strdup(s FLARGS);
    break;
  }
  case 7: p = aligned_alloc(b, a); break;
  }
  if (api != 3) *rc = p ? 0 : errno;
  return p;
}
static void do_free(int api, int fl, void *p, const char *f, int ln) {
  (void)f; (void)ln;
  if (api >= 10 && api < 20) {
#ifdef VEXEC_CPP
    x_delete(api, p, fl, f, ln);
#endif
    return;
  }
  switch (api) {
  case 0: if (fl == 0) free(p); else if (fl == 2) xm_free(p); else _duma_free(p FLARGS); break;
  case 1: { void *q = fl == 0 ? realloc(p, 0) : fl == 2 ? xm_realloc(p, 0) : _duma_realloc(p, 0 FLARGS); if (q) { ls("NONNULL"); lend(); } break; }
  }
}

/* ------------------------------------------------------------------ *
 * script                                                               *
 * ------------------------------------------------------------------ */
typedef struct { char op[4]; int idx, nv; long *v; const char *s; } Op;
static char script[1 << 22];
static long vals[1 << 20];
static Op ops[1 << 17];
static int nops;
static const char *tailstr[256];

static int isws(char c) { return c == ' '; }
static void parse(size_t n) {
  char *p = script, *e = script + n;
  long *vp = vals;
  while (p < e) {
    char *q = p, *t;
    Op *o = &ops[nops];
    int k = 0;
    while (q < e && *q != '\n') q++;
    *q = 0;
    t = p;
    while (*t && !isws(*t) && k < 3) o->op[k++] = *t++;
    o->op[k] = 0;
    o->v = vp;
    o->idx = nops;
    while (*t) {
      int neg = 0; unsigned long x = 0;
      while (isws(*t)) t++;
      if (!*t) break;
      if (*t == '"') { o->s = t + 1; break; }
      if (*t == '-') { neg = 1; t++; }
      while (*t >= '0' && *t <= '9') x = x * 10 + (*t++ - '0');
      *vp++ = neg ? -(long)x : (long)x;
      o->nv++;
    }
    nops++;
    p = q + 1;
  }
}

/* string-function arena: pages with an unmapped page on either side */
static u8 *arena;
#define ARP 3
static u8 before[ARP * 4096];

static void op_str(long *v) {
  /* fn fl dst src n  (offsets into the arena; dst/src == -1 unused) */
  int fn = (int)v[0], fl = (int)v[1];
  char *d = (char *)arena + v[2], *s = (char *)arena + v[3];
  size_t n = (size_t)v[4], i, cnt = 0;
  const char *f = fname[v[5]]; int ln = (int)v[6];
  void *r = 0;
  (void)f; (void)ln;
  cpy(before, arena, ARP * PAGE);
  switch (fn) {
  case 0: r = fl == 0 ? memcpy(d, s, n) : fl == 2 ? xm_memcpy(d, s, n) : _duma_memcpy(d, s, n FLARGS); break;
  case 7:
  case 1: r = fl == 0 ? memmove(d, s, n) : fl == 2 ? xm_memmove(d, s, n) : _duma_memmove(d, s, n); break;
  case 2: r = fl == 0 ? strcpy(d, s) : fl == 2 ? xm_strcpy(d, s) : _duma_strcpy(d, s FLARGS); break;
  case 3: r = fl == 0 ? strncpy(d, s, n) : fl == 2 ? xm_strncpy(d, s, n) : _duma_strncpy(d, s, n FLARGS); break;
  case 4: r = fl == 0 ? strcat(d, s) : fl == 2 ? xm_strcat(d, s) : _duma_strcat(d, s FLARGS); break;
  case 5: r = fl == 0 ? strncat(d, s, n) : fl == 2 ? xm_strncat(d, s, n) : _duma_strncat(d, s, n FLARGS); break;
  case 6: {
    u8 *q = (u8 *)(fl == 0 ? strdup(s) : fl == 2 ? xm_strdup(s) : _duma_strdup(s FLARGS));
    ls("dup");
    if (!q) { li(-1); return; }
    lul(fl == 0 ? malloc_usable_size(q) : _duma_malloc_usable_size(q FLARGS));
    for (i = 0; q[i]; i++) { li(q[i]); }
    li(0);
    if (fl == 0) free(q); else _duma_free(q FLARGS);
    return;
  }
  }
  ls("s"); li((u8 *)r - arena);
  for (i = 0; i < ARP * PAGE; i++) if (before[i] != arena[i]) cnt++;
  lul(cnt);
  for (i = 0; i < ARP * PAGE; i++) if (before[i] != arena[i]) { lul(i); lul(arena[i]); }
}

/* regions beyond 4 GB: one small piece of memory mapped again and again,
 * with a piece of its own at the end */
#define BIGPIECE (16UL << 20)
static u8 *big_map(size_t n, u8 **tail) {
  size_t k, pieces = n / BIGPIECE;
  u8 *p = (u8 *)syscall(SYS_mmap, 0, (pieces + 1) * BIGPIECE + 2 * PAGE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  int fd = (int)syscall(SYS_memfd_create, "big", 0);
  p += PAGE;
  if (syscall(SYS_ftruncate, fd, BIGPIECE)) _exit(98);
  for (k = 0; k < pieces; k++)
    if (syscall(SYS_mmap, p + k * BIGPIECE, BIGPIECE, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) < 0) _exit(97);
  syscall(SYS_mprotect, p + pieces * BIGPIECE, BIGPIECE, PROT_READ | PROT_WRITE);
  syscall(SYS_close, fd);
  *tail = p + pieces * BIGPIECE;
  return p;
}
static void op_big(int fn, int fl, size_t n) {
  /* n - a multiple of the piece - bytes and a tail of 1000 bytes more */
  u8 *st, *dt, *s = big_map(n, &st), *d = fn == 6 ? 0 : big_map(n, &dt), *r = 0, *x;
  size_t i, bad = 0, N = n + 1000, off = 0;
  const char *f = fname[0]; int ln = 7;
  (void)f; (void)ln;
  if ((fn == 1 && d > s) || (fn == 7 && d < s)) { /* 1: downwards, 7: upwards */
    x = s; s = d; d = x;
    x = st; st = dt; dt = x;
  }
  for (i = 0; i < BIGPIECE; i++) { s[i] = 0x61; if (d) d[i] = 0x20; }
  for (i = 0; i < 1000; i++) st[i] = (u8)(1 + i % 250);
  if (fn) st[999] = 0;
  if (fn == 4 || fn == 5) { d[0] = 'x'; d[1] = 'y'; d[2] = 0; off = 2; }
  switch (fn) {
  case 0: r = fl == 0 ? memcpy(d, s, N) : _duma_memcpy(d, s, N FLARGS); break;
  case 7:
  case 1: r = fl == 0 ? memmove(d, s, N) : _duma_memmove(d, s, N); break;
  case 2: r = (u8 *)(fl == 0 ? strcpy((char *)d, (char *)s) : _duma_strcpy((char *)d, (char *)s FLARGS)); break;
  case 3: r = (u8 *)(fl == 0 ? strncpy((char *)d, (char *)s, N) : _duma_strncpy((char *)d, (char *)s, N FLARGS)); break;
  case 4: r = (u8 *)(fl == 0 ? strcat((char *)d, (char *)s) : _duma_strcat((char *)d, (char *)s FLARGS)); break;
  case 5: r = (u8 *)(fl == 0 ? strncat((char *)d, (char *)s, N + 5) : _duma_strncat((char *)d, (char *)s, N + 5 FLARGS)); break;
  case 6:
    r = (u8 *)(fl == 0 ? strdup((char *)s) : _duma_strdup((char *)s FLARGS));
    if (!r) { ls("big null"); return; }
    if (malloc_usable_size(r) != N) { ls("big size"); return; }
    d = r; dt = r + n;
    break;
  }
  if (r != d) { ls("big ret"); return; }
  if (fn == 5) { /* the terminator */ }
  for (i = 0; i < 1000; i++) if (dt[i + off] != st[i]) bad++;
  for (i = 0; i < n; i += 4096 * 17 + 3) if (i >= 2 + off && d[i] != 0x61) bad++;
  ls("big"); lul(bad);
}

/* read by the crash path too: what did the arena look like before the stop? */
static int str_in_flight;
static void on_ill_arena(int sig) {
  (void)sig;
  if (str_in_flight) {
    size_t i, cnt = 0;
    for (i = 0; i < ARP * PAGE; i++) if (before[i] != arena[i]) cnt++;
    ls("STOPPED"); lul(cnt); lend();
  }
  signal(SIGILL, SIG_DFL);
  kill(getpid(), SIGILL);
}

static char mapsbuf[1 << 23];
static unsigned long noted[1 << 14]; /* what was accessible inside a new-handler */
static int nnoted, noting;
static void op_maps(int note) {
  int fd = (int)syscall(SYS_openat, AT_FDCWD, "/proc/self/maps", O_RDONLY);
  size_t n = 0; long r; char *p;
  int i;
  while ((r = syscall(SYS_read, fd, mapsbuf + n, sizeof mapsbuf - 1 - n)) > 0) n += r;
  syscall(SYS_close, fd);
  mapsbuf[n] = 0;
  if (note) nnoted = 0; else { ls("u"); lul(mm_total); }
  for (p = mapsbuf; *p;) {
    uintptr_t lo = 0, hi = 0; char *q = p;
    for (; *q != '-'; q++) lo = lo * 16 + (*q <= '9' ? *q - '0' : *q - 'a' + 10);
    for (q++; *q != ' '; q++) hi = hi * 16 + (*q <= '9' ? *q - '0' : *q - 'a' + 10);
    q++;
    if (q[0] == 'r' || q[1] == 'w')
      for (i = 0; i < nrg; i++) {
        uintptr_t a = lo > rg[i].lo ? lo : rg[i].lo, b = hi < rg[i].hi ? hi : rg[i].hi;
        if (a < b && !note) { lul(a); lul(b); }
        if (a < b && note && nnoted < (1 << 14) - 2) { noted[nnoted++] = a; noted[nnoted++] = b; }
      }
    while (*q != '\n') q++;
    p = q + 1;
  }
}

void x_note(void) { if (noting) op_maps(1); }

static int mapped(uintptr_t a) {
  int i;
  for (i = 0; i < nrg; i++) if (rg[i].lo <= a && a < rg[i].hi) return 1;
  return 0;
}

static u8 statics[64];
static __thread int in_thread;

static void *addr_of(long kind, long r, long d) {
  u8 loc[64];
  switch (kind) {
  case 0: return blk[r].p + d;
  case 1: { u8 *volatile q = loc; return q + (d & 31); }
  case 2: return statics + (d & 31);
  case 3: return 0;
  case 5: { /* a page boundary behind the block, moved up past what is the start of a block itself */
    u8 *a = (u8 *)(((uintptr_t)blk[r].p + blk[r].n + PAGE - 1) & ~(PAGE - 1)) + d;
    long i;
    for (i = 0; i < NREG; i++) if (blk[i].p == a) { a++; i = -1; }
    return a;
  }
  default: return (void *)d;
  }
}

static int is(const char *a, const char *b) { while (*a && *a == *b) a++, b++; return *a == *b; }
static void run(Op *o, int n);

typedef struct { int from, to, coop; Log log; char *buf; unsigned seed; pthread_t t; pthread_barrier_t *bar; } Thr;
static Thr thr[32];
static int nthr;
static u8 *thrlog;
#define THRLOG (1UL << 24)
#define THRSTR (1UL << 20)
static volatile int evt[1 << 16];
static void *thread_main(void *a) {
  Thr *t = (Thr *)a;
  lg = &t->log;
  srcbuf = t->buf + THRLOG;
  jrng = t->seed;
  in_thread = 1;
  pthread_barrier_wait(t->bar);
  if (t->coop) sched_enter((int)(t - thr));
  run(&ops[t->from], t->to - t->from);
  if (t->coop) sched_leave();
  return 0;
}

static volatile int want_return;
static int return_code;

static void one(Op *o) {
  long *v = o->v;
  const char *c = o->op;
  size_t i;
  Blk *b = &blk[v && o->nv ? (unsigned long)v[0] % NREG : 0];
  if (in_thread) sched_point();
  if (!in_thread) { lul(o->idx); lc(' '); }
  else { lc('t'); lu(o->idx); lc(' '); }
  if (is(c, "a")) { /* reg api fl n1 n2 file line */
    long rc; int exc;
    u8 *p = do_alloc((int)v[1], (int)v[2], v[3], v[4], fname[v[5]], (int)v[6], &rc, &exc);
    ls("a"); lul((unsigned long)p); li(rc); li(exc);
    if (p != (u8 *)0x5A5A5A50) {
      b->p = p;
      b->n = v[1] == 1 ? (size_t)v[3] * (size_t)v[4] : v[1] == 6 ? (size_t)v[3] + 1 : (size_t)v[3];
      if (p && b->n && b->n < SHMAX / 4) shadow(b, b->n);
    }
  } else if (is(c, "f")) { /* reg api fl file line */
    ls("f");
    do_free((int)v[1], (int)v[2], b->p, fname[v[3]], (int)v[4]);
    ls(" ok");
  } else if (is(c, "r")) { /* reg newreg newsize fl file line */
    const char *f = fname[v[4]]; int ln = (int)v[5]; (void)f; (void)ln;
    size_t nn = (size_t)v[2];
    errno = 0;
    u8 *p = (u8 *)(v[3] == 0 ? realloc(b->p, nn) : v[3] == 2 ? xm_realloc(b->p, nn) : _duma_realloc(b->p, nn FLARGS));
    ls("r"); lul((unsigned long)p); li(p ? 0 : errno);
    if (p) {
      Blk *x = &blk[(unsigned long)v[1] % NREG];
      size_t k = b->n < nn ? b->n : nn;
      x->p = p; x->n = nn;
      if (nn < 1UL << 30) {
        shadow(x, nn);
        if (x != b) cpy(x->sh, b->sh, k);
        for (i = k; i < nn; i++) x->sh[i] = 0;
      }
    }
  } else if (is(c, "w")) { /* reg off len seed */
    for (i = 0; i < (size_t)v[2]; i++) { u8 x = pat(v[3], v[1] + i); b->p[v[1] + i] = x; b->sh[v[1] + i] = x; }
    ls("w");
  } else if (is(c, "v")) { /* reg : content against shadow */
    long bad = -1; u8 x;
    for (i = 0; i < b->n; i++) {
      if (!rd(b->p + i, &x)) { bad = (long)i; ls("unreadable "); break; }
      if (x != b->sh[i]) { bad = (long)i; break; }
    }
    ls("v"); li(bad);
  } else if (is(c, "i")) { /* reg off len val : all equal? also adopts */
    long bad = -1; u8 x;
    for (i = v[1]; i < (size_t)(v[1] + v[2]); i++) {
      if (!rd(b->p + i, &x)) { bad = (long)i; ls("unreadable "); break; }
      if (i < b->cap) b->sh[i] = x;
      if (x != (u8)v[3]) { bad = (long)i; break; }
    }
    ls("i"); li(bad);
  } else if (is(c, "is")) { /* reg : strdup contents */
    long bad = -1; const char *s = mkstr(b->n - 1);
    for (i = 0; i < b->n; i++) if (b->p[i] != (u8)s[i]) { bad = (long)i; break; }
    ls("is"); li(bad);
  } else if (is(c, "s")) { /* adopt contents */
    for (i = 0; i < b->n; i++) b->sh[i] = b->p[i];
    ls("s");
  } else if (is(c, "g")) { /* guard probe */
    uintptr_t s = (uintptr_t)b->p, e = s + b->n, up = (e + PAGE - 1) & ~(PAGE - 1), dn = s & ~(PAGE - 1), k;
    long whole = -1, nr = -1, nw = -1, above = 0, br = -1, below = 0;
    for (i = 0; i < b->n; i++) {
      if (b->n > HUGE && i > PAGE && i + PAGE < b->n) i += i + PAGE + b->n / 700 < b->n ? b->n / 700 : b->n - PAGE - i;
      else if (b->n > 3 * PAGE && i > PAGE && i + PAGE < b->n && i % 512) continue;
      if (acc((u8 *)s + i) != 3) { whole = (long)i; break; }
    }
    for (k = e; k < up + PAGE; k++) { int a = acc((u8 *)k); if (nr < 0 && !(a & 1)) nr = k - e; if (nw < 0 && !(a & 2)) nw = k - e; if (nr >= 0 && nw >= 0) break; }
    for (k = up; k < up + PAGE; k += 73) if (acc((u8 *)k)) above++;
    if (acc((u8 *)up + PAGE - 1)) above++;
    for (k = 1; k <= PAGE + 1; k++) if (!(acc((u8 *)s - k) & 1)) { br = (long)k; break; }
    for (k = 1; k <= PAGE; k += 73) if (acc((u8 *)dn - k)) below++;
    if (acc((u8 *)dn - PAGE)) below++;
    ls("g"); li(whole); li(nr); li(nw); li(above); li(br); li(below);
  } else if (is(c, "p")) { /* reg off */
    ls("p"); li(acc(b->p + v[1]));
  } else if (is(c, "P")) { /* reg : any accessible byte in the old range? */
    long cnt = 0, first = -1;
    for (i = 0; i < b->n; i += (i % PAGE == 0 ? 37 : 64)) {
      if (b->n > HUGE && i > PAGE) { i += b->n / 1500 | 1; if (i >= b->n) break; }
      else if (b->n > 64 * PAGE && ((i >> 12) % 7)) { i = (i | (PAGE - 1)) + 1; if (i >= b->n) break; }
      if (acc(b->p + i)) { cnt++; if (first < 0) first = i; }
    }
    if (b->n) { if (acc(b->p + b->n - 1)) { cnt++; if (first < 0) first = b->n - 1; } }
    ls("P"); li(cnt); li(first);
  } else if (is(c, "cm")) { /* reg : may pages of a released block be mapped anew? */
    uintptr_t s = (uintptr_t)b->p & ~(PAGE - 1), e = ((uintptr_t)b->p + b->n + PAGE - 1) & ~(PAGE - 1), k;
    long first = -1;
    if (!b->n) e = s + PAGE;
    for (k = s; k < e && first < 0; k += b->n > HUGE && k + PAGE < e ? (b->n / 700 & ~(PAGE - 1)) : PAGE) {
      if (k >= e) break;
      long r = syscall(SYS_mmap, k, PAGE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0L);
      if (r == (long)k) { first = (long)(k - s); syscall(SYS_munmap, k, PAGE); }
    }
    ls("cm"); li(first);
  } else if (is(c, "S")) { /* reg off val : raw write */
    u8 x = 0; int r = rd(b->p + v[1], &x);
    ls("S"); li(r ? (long)x : -1); li(wr(b->p + v[1], (u8)v[2]));
  } else if (is(c, "l")) { /* reg off len val : raw compare, no shadow */
    long bad = -1, how = 0; u8 x;
    for (i = 0; i < (size_t)v[2]; i++) {
      if (!rd(b->p + v[1] + (long)i, &x)) { bad = v[1] + (long)i; how = 1; break; }
      if (x != (u8)v[3]) { bad = v[1] + (long)i; how = 2; break; }
    }
    ls("l"); li(how); li(bad);
  } else if (is(c, "ext")) { /* reg : accessible extent around the block */
    uintptr_t s = (uintptr_t)b->p, lo = s & ~(PAGE - 1), hi = (s + b->n + PAGE - 1) & ~(PAGE - 1);
    while (acc((u8 *)lo - 1)) lo -= PAGE;
    while (acc((u8 *)hi)) hi += PAGE;
    ls("ext"); lul(s - lo); lul(hi - s - b->n);
  } else if (is(c, "slk")) { /* reg val lo hi: slack bytes around hold val */
    uintptr_t s = (uintptr_t)b->p; long bad = 0; u8 x;
    for (i = 1; i <= (size_t)v[2]; i++) if (!rd((u8 *)s - i, &x) || x != (u8)v[1]) { bad = -(long)i; break; }
    if (!bad) for (i = 0; i < (size_t)v[3]; i++) if (!rd((u8 *)s + b->n + i, &x) || x != (u8)v[1]) { bad = 1 + (long)i; break; }
    ls("slk"); li(bad);
  } else if (is(c, "dm")) { /* reg which val expected wide : check the slack around a block, damage one byte of it;
                               wide 1: all accessible pages on both sides, 2: those behind in the same mapping */
    uintptr_t s = (uintptr_t)b->p, e = s + b->n, lo = s & ~(PAGE - 1), hi = (e + PAGE - 1) & ~(PAGE - 1), k;
    long bad = 0, tot, pick; u8 x = 0;
    if (lo < s && !rd((u8 *)lo, &x)) lo = s;
    else while (v[4] == 1 && rd((u8 *)lo - 1, &x)) lo -= PAGE;
    if (hi > e && !rd((u8 *)e, &x)) hi = e;
    else while (v[4] && (v[4] == 1 || hi < rg_end(s)) && rd((u8 *)hi, &x)) hi += PAGE;
    for (k = lo; k < s && !bad; k++) if (*(volatile u8 *)k != (u8)v[3]) bad = (long)(k - s);
    for (k = e; k < hi && !bad; k++) if (*(volatile u8 *)k != (u8)v[3]) bad = (long)(k - e) + 1;
    tot = (long)((s - lo) + (hi - e));
    ls("dm"); li(bad); li(tot);
    if (tot && v[1] >= 0) {
      pick = v[1] % tot;
      if ((uintptr_t)pick < s - lo) { k = lo + pick; ls(" below"); li((long)(k - s)); }
      else { k = e + (pick - (s - lo)); ls(" above"); li((long)(k - e)); }
      *(volatile u8 *)k = (u8)v[2];
    } else ls(" none 0");
  } else if (is(c, "c")) { /* reg fl */
    ls("c"); if (v[1] == 2) xm_check(b->p); else duma_check(b->p); ls(" ok");
  } else if (is(c, "k")) {
    ls("k"); if (v[0] == 2) xm_checkall(); else duma_checkAll(); ls(" ok");
  } else if (is(c, "t")) { /* align below fill, -999 = leave */
    for (i = 0; i < 3; i++) if (v[i] != -999) xm_set((int)i, (int)v[i]);
    ls("t");
  } else if (is(c, "in")) {
#ifdef DUMA_EXPLICIT_INIT
    duma_init();
#endif
    ls("in");
  } else if (is(c, "nf")) { xm_newframe(); ls("nf");
  } else if (is(c, "d")) { ls("d"); xm_delframe(); ls(" ok");
  } else if (is(c, "q")) { /* reg fl */
    const char *f = fname[0]; int ln = 0; (void)f; (void)ln;
    ls("q"); lul(v[1] == 0 ? malloc_usable_size(b->p) : v[1] == 2 ? xm_usable(b->p) : _duma_malloc_usable_size(b->p FLARGS));
  } else if (is(c, "m")) { mm_skip = v[0]; mm_cnt = v[1]; mm_min = o->nv > 2 ? v[2] : 0; ls("m");
  } else if (is(c, "mr")) { mm_reuse = (int)v[0]; ls("mr"); li(mm_reused);
  } else if (is(c, "mu")) { mu_skip = v[0]; mu_cnt = v[1]; ls("mu");
  } else if (is(c, "mb")) { mm_bump = 0x100000000000UL; ls("mb");
  } else if (is(c, "kp")) { /* reg below ... : pages of the block and its guard still mapped, is its first one? */
    ls("kp");
    for (i = 0; i + 1 < (size_t)o->nv; i += 2) {
      Blk *x = &blk[v[i]];
      uintptr_t s = (uintptr_t)x->p & ~(PAGE - 1), e = ((uintptr_t)x->p + x->n + PAGE - 1) & ~(PAGE - 1), k;
      long cnt = 0, first = mapped(s);
      if (!x->n) e = s + PAGE;
      else if (v[i + 1]) s -= PAGE;
      else e += PAGE;
      for (k = s; k < e; k += PAGE) cnt += mapped(k);
      li(cnt); li(first);
    }
  } else if (is(c, "al")) { /* min : alias large mappings; gives the program more time */
    struct itimerval it = {{0, 0}, {90, 0}};
    syscall(SYS_setitimer, 0, &it, 0);
    al_min = (size_t)v[0]; ls("al");
  } else if (is(c, "ml")) { mm_limit = v[0] ? mm_total + v[0] : 0; ls("ml");
  } else if (is(c, "mp")) { mp_fail = v[0]; ls("mp");
  } else if (is(c, "tl")) { /* how much was written to stdout / stderr so far */
    ls("tl"); li(syscall(SYS_lseek, 1, 0L, SEEK_END)); li(syscall(SYS_lseek, 2, 0L, SEEK_END));
  } else if (is(c, "mq")) { ls("mq"); li(mm_calls); li(mm_failed); li(mm_total); li(peak); peak = mm_total; x_lift_faults();
  } else if (is(c, "M")) { /* not lifting */ ls("M"); li(mm_calls); li(mm_failed); li(mm_total); li(peak); peak = mm_total;
  } else if (is(c, "u")) { op_maps(0);
  } else if (is(c, "un")) { noting = 1; ls("un"); for (i = 0; i < (size_t)nnoted; i++) lul(noted[i]); nnoted = 0;
  } else if (is(c, "b")) { /* reg0 n api n1 n2 : burst */
    long rc; int exc;
    ls("b");
    for (i = 0; i < (size_t)v[1]; i++) {
      Blk *x = &blk[v[0] + i];
      x->p = (u8 *)do_alloc((int)v[2], 0, v[3], v[4], "", 0, &rc, &exc);
      x->n = v[2] == 1 ? (size_t)v[3] * v[4] : v[2] == 6 ? (size_t)v[3] + 1 : (size_t)v[3];
      if (x->p) { size_t k; shadow(x, x->n); for (k = 0; k < x->n; k++) x->sh[k] = x->p[k] = pat(v[0] + i, k); }
      lul((unsigned long)x->p);
    }
  } else if (is(c, "e")) { /* reg0 n api : burst release */
    ls("e");
    for (i = 0; i < (size_t)v[1]; i++) do_free((int)v[2], 0, blk[v[0] + i].p, "", 0);
    ls(" ok");
  } else if (is(c, "V")) { /* reg0 n : verify many */
    long bad = -1; size_t k; u8 x;
    for (i = 0; i < (size_t)v[1] && bad < 0; i++) {
      Blk *y = &blk[v[0] + i];
      if (y->p) for (k = 0; k < y->n; k++) if (!rd(y->p + k, &x) || x != y->sh[k]) { bad = (long)i; break; }
    }
    ls("V"); li(bad);
  } else if (is(c, "y")) { /* n size : churn, verifying each */
    long rc; int exc; long bad = -1;
    ls("y");
    for (i = 0; i < (size_t)v[0]; i++) {
      u8 *p = (u8 *)do_alloc(0, 0, v[1], 0, "", 0, &rc, &exc); size_t k;
      if (!p) { bad = i; break; }
      for (k = 0; k < (size_t)v[1]; k += 97) p[k] = (u8)k;
      if (v[1]) p[v[1] - 1] = 1;
      do_free(0, 0, p, "", 0);
    }
    li(bad);
  } else if (is(c, "x")) { /* action kind reg delta fl file line n : call on an arbitrary address */
    void *a = addr_of(v[1], v[2], v[3]);
    const char *f = fname[v[5]]; int ln = (int)v[6]; (void)f; (void)ln;
    ls("x"); lul((unsigned long)a); lflush();
    switch (v[0]) {
    case 20: a = v[4] == 0 ? realloc(a, v[7]) : v[4] == 2 ? xm_realloc(a, v[7]) : _duma_realloc(a, v[7] FLARGS); lul((unsigned long)a); break;
    case 21: if (v[4] == 2) xm_check(a); else duma_check(a); break;
    case 22: lul(v[4] == 0 ? malloc_usable_size(a) : _duma_malloc_usable_size(a FLARGS)); break;
    default: do_free((int)v[0], (int)v[4], a, f, ln);
    }
    ls(" ok");
  } else if (is(c, "sg")) { __sync_synchronize(); evt[v[0]] = 1; ls("sg");
  } else if (is(c, "wt")) { while (!evt[v[0]]) sched_block(); __sync_synchronize(); ls("wt");
  } else if (is(c, "nl")) { /* reg n size api reps: allocate and release while holding the library's lock */
    long k, rc; int exc;
    ls("nl");
    if (DUMA_get_sem) {
      for (k = 0; k < v[1]; k++) DUMA_get_sem();
      for (k = 0; k < v[4]; k++) do_free(v[3] == 10 ? 10 : v[3] == 12 ? 12 : 0, 0, do_alloc((int)v[3], 0, v[2], 1, "", 0, &rc, &exc), "", 0);
      duma_check(b->p);
      for (k = 0; k < v[1]; k++) DUMA_rel_sem(0);
      ls(" ok");
    } else ls(" none");
  } else if (is(c, "ro")) { /* reg [sel] : make the pages (one of the pages) of a block read-only */
    uintptr_t s = (uintptr_t)b->p & ~(PAGE - 1), e = ((uintptr_t)b->p + b->n + PAGE - 1) & ~(PAGE - 1);
    if (o->nv > 1) { s += (uintptr_t)v[1] % ((e - s) / PAGE) * PAGE; e = s + PAGE; }
    syscall(SYS_mprotect, s, e - s, PROT_READ); ls("ro");
  } else if (is(c, "A")) { /* seed : fill arena */
    for (i = 0; i < ARP * PAGE; i++) arena[i] = (u8)(1 + pat(v[0], i) % 255);
    ls("A");
  } else if (is(c, "Z")) { for (i = 0; i < (size_t)o->nv; i++) arena[v[i]] = 0; ls("Z");
  } else if (is(c, "O")) { str_in_flight = 1; op_str(v); str_in_flight = 0;
  } else if (is(c, "big")) {
    struct itimerval it = {{0, 0}, {90, 0}};
    syscall(SYS_setitimer, 0, &it, 0);
    op_big((int)v[0], (int)v[1], (size_t)v[2]);
  } else if (is(c, "H")) {
#ifdef VEXEC_CPP
    x_set_handler((int)v[0], (int)v[1]);
#endif
    ls("H");
  } else if (is(c, "hc")) { ls("hc");
#ifdef VEXEC_CPP
    li(x_handler_calls());
    li(x_handler_is());
  } else if (is(c, "on")) { /* reg kind n */
    size_t n = v[1] & 1 ? (size_t)v[2] : 24;
    int exc;
    u8 *p = x_old_new((int)v[1], n, &exc);
    b->p = p; b->n = n;
    if (p) shadow(b, n);
    ls("on"); lul((unsigned long)p); li(exc);
  } else if (is(c, "od")) { /* reg kind */
    x_old_del((int)v[1], b->p);
    ls("od ok");
  } else if (is(c, "tx")) { /* node : release it once more */
    void *p = x_tree_node((int)v[0]);
    ls("tx"); lul((unsigned long)p); lflush();
    x_delete(10, p, 0, "", 0);
    ls(" ok");
#endif
  } else if (is(c, "ct")) { ls("ct");
#ifdef VEXEC_CPP
    li(x_ctor((int)v[0], (int)v[1]));
#endif
  } else if (is(c, "tr")) { ls("tr"); lflush();
#ifdef VEXEC_CPP
    x_tree((int)v[0], v + 1);
#endif
    ls(" ok");
  } else if (is(c, "fm")) { /* where n (type value)* "pattern ; types: 0 number, 1 string of the F table, 2 null */
    static char big[1 << 20];
    unsigned long A[8] = {0};
    for (i = 0; i < v[1] && i < 8; i++)
      A[i] = v[2 + 2 * i] == 1 ? (unsigned long)fname[v[3 + 2 * i]] : v[2 + 2 * i] == 2 ? 0 : (unsigned long)v[3 + 2 * i];
#define ARGS8 A[0], A[1], A[2], A[3], A[4], A[5], A[6], A[7]
    ls("fm");
    switch (v[0]) {
    case 0:
      if (!DUMA_sprintf) { ls(" none"); break; }
      for (i = 0; i < (long)sizeof big; i++) big[i] = 0x7f;
      DUMA_sprintf(big, o->s, ARGS8); ls(" =");
      for (i = 0; i < (long)sizeof big && big[i]; i++) { u8 x = big[i]; lc("0123456789abcdef"[x >> 4]); lc("0123456789abcdef"[x & 15]); }
      break;
    case 1: if (!DUMA_Print) ls(" none"); else { DUMA_Print(o->s, ARGS8); ls(" ok"); } break;
    case 2: if (!DUMA_Abort) ls(" none"); else { lflush(); DUMA_Abort(o->s, ARGS8); } break;
    case 3: if (!DUMA_Exit) ls(" none"); else { lflush(); DUMA_Exit(o->s, ARGS8); } break;
    }
  } else if (is(c, "ul")) { ls("ul"); li(unlink(o->s));
  } else if (is(c, "wi")) { wi_mode = (int)v[0]; wi_k = (int)v[1]; ls("wi");
  } else if (is(c, "as")) { ls("as"); lflush(); _duma_assert(o->s, fname[v[0]], (int)v[1]);
  } else if (is(c, "ill")) { ls("ill");
    if (v[0] == 2) { sigset_t m; sigemptyset(&m); sigaddset(&m, SIGILL); sigprocmask(SIG_BLOCK, &m, 0); }
    else signal(SIGILL, v[0] ? SIG_IGN : on_ill);
  } else if (is(c, "o1")) { const char m[] = "<user-out>\n"; syscall(SYS_write, (int)v[0], m, sizeof m - 1); ls("o1");
  } else if (is(c, "cl")) { close((int)v[0]); ls("cl");
  } else if (is(c, "z")) { /* kind code */
    ls("z"); lend();
    if (v[0] == 0) exit((int)v[1]);
    if (v[0] == 2) _exit((int)v[1]);
    if (v[0] == 3) quick_exit((int)v[1]);
    want_return = 1; return_code = (int)v[1];
    return;
  } else if (is(c, "di")) {
#ifdef DUMA_EXPLICIT_INIT
    duma_init();
#endif
    ls("di");
  } else { ls("?"); ls(c); }
  lend();
}

static void run(Op *o, int n) {
  int i, k;
  for (i = 0; i < n && !want_return; i++) {
    if (o[i].op[0] == '>' && o[i].op[1] == 'T') { /* thread section: >T seed */
      Thr *t = &thr[nthr++];
      t->from = o[i].idx + 1; t->seed = (unsigned)o[i].v[0];
      while (i + 1 < n && o[i + 1].op[0] != '>') i++;
      t->to = o[i].idx + 1;
    } else if (o[i].op[0] == '>') { /* >R jitter [slice seed] : run the sections, with the scheduler if slice */
      pthread_barrier_t bar;
      pthread_attr_t at;
      long slice = o[i].nv > 1 ? o[i].v[1] : 0;
      pthread_attr_init(&at);
      pthread_attr_setstacksize(&at, 1 << 18);
      pthread_barrier_init(&bar, 0, nthr);
      if (slice) sched_setup(nthr, o[i].v[2], slice);
      jitter = slice ? 0 : (int)o[i].v[0];
      for (k = 0; k < nthr; k++) {
        thr[k].buf = (char *)thrlog + (THRLOG + THRSTR) * k;
        thr[k].log.buf = thr[k].buf; thr[k].log.len = 0; thr[k].log.cap = THRLOG; thr[k].log.fd = -1;
        thr[k].bar = &bar;
        thr[k].coop = slice != 0;
        if (pthread_create(&thr[k].t, &at, thread_main, &thr[k])) _exit(96);
      }
      if (slice) sched_go();
      for (k = 0; k < nthr; k++) pthread_join(thr[k].t, 0);
      jitter = 0;
      lul(o[i].idx); ls(" R"); li(slice ? (long)sched_stop() : 0); lend();
      for (k = 0; k < nthr; k++) {
        size_t j;
        for (j = 0; j < thr[k].log.len; j++) lc(thr[k].log.buf[j]);
        lflush();
      }
      nthr = 0;
    } else
      one(&o[i]);
  }
}

/* with an inaccessible page on either side */
static u8 *own_map(size_t n) {
  u8 *p = (u8 *)syscall(SYS_mmap, 0, n + 2 * PAGE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0) + PAGE;
  syscall(SYS_mprotect, p, n, PROT_READ | PROT_WRITE);
  return p;
}

int main(void) {
  struct sigaction sa;
  size_t n = 0; long r;
  int i;
  lg = &mainlog;
  while ((r = syscall(SYS_read, 3, script + n, sizeof script - 1 - n)) > 0) n += r;
  parse(n);
  shbase = own_map(SHMAX);
  thrlog = own_map((THRLOG + THRSTR) * 32);
  arena = (u8 *)syscall(SYS_mmap, 0, (ARP + 2) * PAGE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0) + PAGE;
  syscall(SYS_mprotect, arena, ARP * PAGE, PROT_READ | PROT_WRITE);
  for (i = 0; i < (int)sizeof sa; i++) ((volatile char *)&sa)[i] = 0;
  sa.sa_sigaction = on_segv;
  sa.sa_flags = SA_SIGINFO | SA_NODEFER;
  sigaction(SIGSEGV, &sa, 0);
  sigaction(SIGBUS, &sa, 0);
  for (i = 0; i < MAXF; i++) fname[i] = "";
  for (i = 0; i < nops && ops[i].op[0] == 'F'; i++) fname[ops[i].v[0]] = ops[i].s;
  if (i < nops && is(ops[i].op, "sil")) { signal(SIGILL, on_ill_arena); i++; }
  ls("READY"); lend();
  { struct itimerval { struct timeval a, b; } it = {{0, 0}, {VEXEC_TIMEOUT, 0}}; syscall(SYS_setitimer, 0, &it, 0); }
  run(&ops[i], nops - i);
  if (want_return) return return_code;
  ls("END"); lend();
  return 0;
}
