/* A deterministic scheduler for the threads of a case.  The library is compiled
 * with -fsanitize=thread, but instead of the sanitizer's run-time this file is
 * linked: every memory access of the library is a point where another thread may
 * go on.  One thread runs at a time; who is next, and when, follows from a seed.
 * A thread blocked in anything unknown to us loses the turn after a while, so
 * that no way of locking can make a case hang that would not hang anyway. */
#define _GNU_SOURCE
#include <linux/futex.h>
#include <pthread.h>
#include <stddef.h>
#include <stdint.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include "coop.h"

#define MAXT 32
volatile int sched_active;
static volatile int turn = -1, alive[MAXT];
static volatile unsigned long steps, switches;
static unsigned long rng;
static volatile int go[MAXT];
static long interval = 10, left = 10;
static __thread int me = -1;

static unsigned rnd(void) {
  rng = rng * 6364136223846793005UL + 1442695040888963407UL;
  return (unsigned)(rng >> 33);
}
static void fwait(int t) {
  unsigned long seen = steps;
  int idle = 0, v, w;
  for (;;) {
    struct timespec ts = {0, 20 * 1000000L};
    w = go[t];
    __sync_synchronize();
    if ((v = turn) == t) break;
    syscall(SYS_futex, &go[t], FUTEX_WAIT_PRIVATE, w, &ts, 0, 0);
    if (turn == t) break;
    if (steps != seen) { seen = steps; idle = 0; }
    else if (++idle > 10 + t) { if (__sync_bool_compare_and_swap(&turn, v, t)) break; idle = 0; }
  }
}
static void give(int t) {
  /* long runs: switch less and less often, to end in reasonable time */
  if (++switches % 8192 == 0) interval *= 2;
  turn = t;
  __sync_fetch_and_add(&go[t], 1);
  syscall(SYS_futex, &go[t], FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}
static int next(int other) {
  int c[MAXT], n = 0, i;
  for (i = 0; i < MAXT; i++) if (alive[i] && (!other || i != me)) c[n++] = i;
  return n ? c[rnd() % n] : me;
}
static void arm(void) {
  /* mostly short slices, now and then a very long one */
  unsigned r = rnd();
  left = r % 16 == 0 ? interval * 40 : 1 + (long)((r >> 4) % (2 * interval));
}
void sched_point(void) {
  int t;
  if (!sched_active || me < 0) return;
  steps++;
  if (--left > 0) return;
  arm();
  t = next(0);
  if (t == me) return;
  give(t);
  fwait(me);
}
void sched_block(void) {
  int t;
  if (!sched_active || me < 0) {
    struct timespec ts = {0, 20000L};
    syscall(SYS_nanosleep, &ts, 0);
    return;
  }
  steps++;
  arm();
  t = next(1);
  if (t == me) { /* nobody else is left */
    struct timespec ts = {0, 100000L};
    syscall(SYS_nanosleep, &ts, 0);
    return;
  }
  give(t);
  fwait(me);
}
void sched_setup(int n, unsigned long seed, long slice) {
  int i;
  rng = seed * 0x9E3779B97F4A7C15UL + 12345;
  interval = slice;
  rnd(); arm();
  for (i = 0; i < MAXT; i++) alive[i] = i < n;
  turn = -1;
  steps = switches = 0;
  sched_active = 1;
}
void sched_go(void) { give(next(0)); }
void sched_enter(int t) { me = t; fwait(t); }
void sched_leave(void) {
  int t;
  alive[me] = 0;
  t = next(1);
  if (t != me) give(t);
  else turn = -1;
  me = -1;
}
unsigned long sched_stop(void) { sched_active = 0; return switches; }

#ifdef VEXEC_SCHED
__asm__(".symver __pthread_mutex_lock,__pthread_mutex_lock@GLIBC_2.2.5");
__asm__(".symver __pthread_mutex_trylock,__pthread_mutex_trylock@GLIBC_2.2.5");
__asm__(".symver __pthread_mutex_unlock,__pthread_mutex_unlock@GLIBC_2.2.5");
extern int __pthread_mutex_lock(pthread_mutex_t *);
extern int __pthread_mutex_trylock(pthread_mutex_t *);
extern int __pthread_mutex_unlock(pthread_mutex_t *);
int pthread_mutex_trylock(pthread_mutex_t *m) {
  sched_point();
  return __pthread_mutex_trylock(m);
}
int pthread_mutex_lock(pthread_mutex_t *m) {
  int r;
  if (!sched_active || me < 0) return __pthread_mutex_lock(m);
  sched_point();
  while ((r = __pthread_mutex_trylock(m)) == 16 /* EBUSY */) sched_block();
  return r;
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
  int r;
  sched_point();
  r = __pthread_mutex_unlock(m);
  sched_point();
  return r;
}

#define A1(n) void n(void *a) { (void)a; sched_point(); }
#define RW(s) A1(__tsan_read##s) A1(__tsan_write##s) A1(__tsan_unaligned_read##s) A1(__tsan_unaligned_write##s) \
  A1(__tsan_read_write##s) A1(__tsan_unaligned_read_write##s) A1(__tsan_volatile_read##s) A1(__tsan_volatile_write##s) \
  A1(__tsan_unaligned_volatile_read##s) A1(__tsan_unaligned_volatile_write##s)
RW(1) RW(2) RW(4) RW(8) RW(16)
A1(__tsan_func_entry) A1(__tsan_vptr_read)
void __tsan_func_exit(void) {}
void __tsan_init(void) {}
void __tsan_vptr_update(void *a, void *b) { (void)a; (void)b; }
void __tsan_read_range(void *a, unsigned long n) { (void)a; (void)n; sched_point(); }
void __tsan_write_range(void *a, unsigned long n) { (void)a; (void)n; sched_point(); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { volatile char *a = d; const volatile char *b = s; sched_point(); while (n--) *a++ = *b++; return d; }
void *__tsan_memmove(void *d, const void *s, size_t n) {
  volatile char *a = d; const volatile char *b = s;
  sched_point();
  if ((uintptr_t)d < (uintptr_t)s) while (n--) *a++ = *b++;
  else while (n--) a[n] = b[n];
  return d;
}
void *__tsan_memset(void *d, int c, size_t n) { volatile char *a = d; sched_point(); while (n--) *a++ = (char)c; return d; }
#define AT(b, T) \
  T __tsan_atomic##b##_load(const volatile T *a, int m) { (void)m; sched_point(); return __atomic_load_n(a, 5); } \
  void __tsan_atomic##b##_store(volatile T *a, T v, int m) { (void)m; sched_point(); __atomic_store_n(a, v, 5); } \
  T __tsan_atomic##b##_exchange(volatile T *a, T v, int m) { (void)m; sched_point(); return __atomic_exchange_n(a, v, 5); } \
  T __tsan_atomic##b##_fetch_add(volatile T *a, T v, int m) { (void)m; sched_point(); return __atomic_fetch_add(a, v, 5); } \
  T __tsan_atomic##b##_fetch_sub(volatile T *a, T v, int m) { (void)m; sched_point(); return __atomic_fetch_sub(a, v, 5); } \
  T __tsan_atomic##b##_fetch_and(volatile T *a, T v, int m) { (void)m; sched_point(); return __atomic_fetch_and(a, v, 5); } \
  T __tsan_atomic##b##_fetch_or(volatile T *a, T v, int m) { (void)m; sched_point(); return __atomic_fetch_or(a, v, 5); } \
  T __tsan_atomic##b##_fetch_xor(volatile T *a, T v, int m) { (void)m; sched_point(); return __atomic_fetch_xor(a, v, 5); } \
  int __tsan_atomic##b##_compare_exchange_strong(volatile T *a, T *c, T v, int m, int f) { (void)m; (void)f; sched_point(); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
  int __tsan_atomic##b##_compare_exchange_weak(volatile T *a, T *c, T v, int m, int f) { (void)m; (void)f; sched_point(); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
  T __tsan_atomic##b##_compare_exchange_val(volatile T *a, T c, T v, int m, int f) { (void)m; (void)f; sched_point(); __atomic_compare_exchange_n(a, &c, v, 0, 5, 5); return c; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int m) { (void)m; __sync_synchronize(); sched_point(); }
void __tsan_atomic_signal_fence(int m) { (void)m; }
#endif
