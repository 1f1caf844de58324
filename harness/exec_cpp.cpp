/* C++ side of the executor */
#include <new>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <exception>
#include "dumapp.h"
#include "noduma.h"
#include "exec.h"

#ifndef DUMA_NO_CPP_SUPPORT
/* class-member operators, in the way the repository's testoperators does it */
static void *member_alloc(size_t n, bool arr, const char *file, int line) {
  (void)file; (void)line;
  return _duma_allocate(0, n, GET_DUMA_TLSVARS()->PROTECT_BELOW,
                        GET_DUMA_TLSVARS()->FILL, 1,
                        arr ? EFA_MEMBER_NEW_ARRAY : EFA_MEMBER_NEW_ELEM,
                        DUMA_FAIL_ENV
#ifndef DUMA_NO_LEAKDETECTION
                        , file, line
#endif
  );
}
static void member_free(void *p, bool arr, const char *file, int line) {
  (void)file; (void)line;
  _duma_deallocate(p, 1, arr ? EFA_MEMBER_DEL_ARRAY : EFA_MEMBER_DEL_ELEM
#ifndef DUMA_NO_LEAKDETECTION
                   , file, line
#endif
  );
}
#else
static void *member_alloc(size_t, bool, const char *, int) { return 0; }
static void member_free(void *, bool, const char *, int) {}
#endif

template <int N> struct Sz { char c[N]; };

#if !defined(DUMA_NO_CPP_SUPPORT) && !defined(DUMA_NO_LEAKDETECTION)
#include "dumapp.h"
#line 201 "macro_site.cpp"
static void *mac_new1() { return new Sz<1>; }
static void *mac_new24() { return new Sz<24>; }
static void *mac_new200() { return new Sz<200>; }
static void *mac_newarr(size_t n) { return new char[n]; }
static void mac_del(void *p) { delete (Sz<24> *)p; }
static void mac_delarr(void *p) { delete[] (char *)p; }
#include "noduma.h"
#else
static void *mac_new1() { return new Sz<1>; }
static void *mac_new24() { return new Sz<24>; }
static void *mac_new200() { return new Sz<200>; }
static void *mac_newarr(size_t n) { return new char[n]; }
static void mac_del(void *p) { delete (Sz<24> *)p; }
static void mac_delarr(void *p) { delete[] (char *)p; }
#endif
#line 70 "exec_cpp.cpp"

#if defined(DUMA_NO_LEAKDETECTION) || defined(DUMA_NO_CPP_SUPPORT)
#define ATTR(plain, attr) (plain)
#else
#define ATTR(plain, attr) (fl == 1 ? (attr) : (plain))
#endif

static __thread void *volatile sink;

/* what a new-handler may throw: a kind of bad_alloc */
struct NoMemory : std::bad_alloc {
  int tag;
  NoMemory(int t) : tag(t) {}
};

extern "C" void *x_new(int api, size_t n, int fl, const char *file, int line, int *exc) {
  void *p = 0;
  (void)file; (void)line; (void)fl;
  *exc = 0;
  try {
    if (fl == 2) {
      if (api == 10) p = n == 1 ? mac_new1() : n == 24 ? mac_new24() : mac_new200();
      else p = mac_newarr(n);
    } else if (fl == 3) { /* language expressions without macros */
      if (api == 10) p = n == 1 ? (void *)new Sz<1> : n == 24 ? (void *)new Sz<24> : (void *)new Sz<200>;
      else if (api == 12) p = new char[n];
      else if (api == 13) p = new (std::nothrow) char[n];
      else p = n == 1 ? (void *)new (std::nothrow) Sz<1> : (void *)new (std::nothrow) Sz<200>;
    } else
      switch (api) {
      case 10: p = ATTR(operator new(n), operator new(n, file, line)); break;
      case 11: p = ATTR(operator new(n, std::nothrow), operator new(n, std::nothrow, file, line)); break;
      case 12: p = ATTR(operator new[](n), operator new[](n, file, line)); break;
      case 13: p = ATTR(operator new[](n, std::nothrow), operator new[](n, std::nothrow, file, line)); break;
      case 14: p = member_alloc(n, false, file, line); break;
      case 15: p = member_alloc(n, true, file, line); break;
      }
  } catch (NoMemory &e) {
    *exc = e.tag == 77 ? 3 : 2;
  } catch (std::bad_alloc &) {
    *exc = 1;
  } catch (...) {
    *exc = 2;
  }
  sink = p;
  return p;
}

extern "C" void x_delete(int api, void *p, int fl, const char *file, int line) {
  (void)file; (void)line; (void)fl;
#if defined(DUMA_NO_LEAKDETECTION) || defined(DUMA_NO_CPP_SUPPORT)
  if (fl == 1) fl = 0;
#endif
  if (fl == 2) {
    if (api == 10) mac_del(p); else mac_delarr(p);
    return;
  }
  if (fl == 3) {
    if (api == 10) delete (Sz<24> *)p; else delete[] (char *)p;
    return;
  }
#if !defined(DUMA_NO_LEAKDETECTION) && !defined(DUMA_NO_CPP_SUPPORT)
  if (fl == 1)
    switch (api) {
    case 10: operator delete(p, file, line); return;
    case 11: operator delete(p, std::nothrow, file, line); return;
    case 12: operator delete[](p, file, line); return;
    case 13: operator delete[](p, std::nothrow, file, line); return;
    }
#endif
  switch (api) {
  case 10: operator delete(p); return;
  case 11: operator delete(p, std::nothrow); return;
  case 12: operator delete[](p); return;
  case 13: operator delete[](p, std::nothrow); return;
  case 14: member_free(p, false, file, line); return;
  case 15: member_free(p, true, file, line); return;
  case 16: operator delete(p, (size_t)24); return;
  case 17: operator delete[](p, (size_t)24); return;
  }
}

/* the C++ library's own, with other threads getting a turn around them */
static std::new_handler h_now;
namespace std {
new_handler set_new_handler(new_handler h) throw() {
  new_handler o;
  x_perturb();
  o = __atomic_exchange_n(&h_now, h, __ATOMIC_SEQ_CST);
  x_perturb();
  return o;
}
#if __cplusplus >= 201103L
new_handler get_new_handler() noexcept {
  x_perturb();
  return __atomic_load_n(&h_now, __ATOMIC_SEQ_CST);
}
#endif
}

/* new-handler behaviours */
static int h_mode, h_k, h_calls;
static void handler2() {
  x_note();
  ++h_calls;
  x_lift_faults();
}
static void handler() {
  x_note();
  ++h_calls;
  if (h_mode == 5) { if (h_calls >= h_k) h_mode = 2; else return; }
  if (h_calls < h_k) return;
  switch (h_mode) {
  case 1: x_lift_faults(); break;
  case 2: throw std::bad_alloc();
  case 3: throw 42;
  case 4: std::set_new_handler(0); break;
  case 6: throw NoMemory(77);
  case 7: std::set_new_handler(handler2); break;
  case 8: x_lift_faults(); delete new Sz<24>; delete[] new char[5000]; break;
  }
}
extern "C" void x_set_handler(int mode, int k) {
  h_mode = mode; h_k = k; h_calls = 0;
  std::set_new_handler(mode ? handler : (std::new_handler)0);
}
extern "C" int x_handler_calls(void) { return h_calls; }
extern "C" int x_handler_is(void) {
  std::new_handler h = std::set_new_handler(0);
  std::set_new_handler(h);
  return h == handler ? 1 : h ? 2 : 0;
}

/* the old macros */
#if !defined(DUMA_NO_CPP_SUPPORT) && !defined(DUMA_NO_LEAKDETECTION)
#define DUMA_OLD_NEW_MACRO
#define DUMA_OLD_DEL_MACRO
#include "dumapp.h"
#line 501 "old_site.cpp"
static void *old_new(int k, size_t n) {
  switch (k) {
  case 0: return NEW_ELEM(Sz<24>);
  case 1: return NEW_ARRAY(char, n);
  case 2: return NEW_ELEM_NOTHROW(Sz<24>);
  default: return NEW_ARRAY_NOTHROW(char, n);
  }
}
static void old_del(int k, void *p) {
  switch (k) {
  case 0: DEL_ELEM(p); break;
  case 1: DEL_ARRAY(p); break;
  case 2: DEL_ELEM_NOTHROW(p); break;
  default: DEL_ARRAY_NOTHROW(p); break;
  }
}
#undef DUMA_OLD_NEW_MACRO
#undef DUMA_OLD_DEL_MACRO
#include "noduma.h"
#else
#include "dumapp.h"
static void *old_new(int k, size_t n) {
  if (k & 1) return NEW_ARRAY(char, n);
  return NEW_ELEM(Sz<24>);
}
static void old_del(int k, void *p) {
  if (k & 1) DEL_ARRAY((char *)p); else DEL_ELEM((Sz<24> *)p);
}
#include "noduma.h"
#endif
extern "C" void *x_old_new(int k, size_t n, int *exc) {
  *exc = 0;
  try {
    return old_new(k, n);
  } catch (const std::bad_alloc &) {
    *exc = 1;
  } catch (...) {
    *exc = 3;
  }
  return 0;
}
extern "C" void x_old_del(int k, void *p) { old_del(k, p); }

/* constructors that throw: the language releases the memory */
struct Thrower {
  long pad[4];
  Thrower(int m) { if (m == 1) throw 7; }
};
struct ArrThrower {
  static __thread int left;
  long v;
  ArrThrower() { if (left-- == 0) throw 7; v = 1; }
  ~ArrThrower() { v = 0; }
};
__thread int ArrThrower::left;

#if !defined(DUMA_NO_CPP_SUPPORT) && !defined(DUMA_NO_LEAKDETECTION)
#include "dumapp.h"
#endif
#line 301 "ctor_site.cpp"
static Thrower *ct_new(int m) { return new Thrower(m); }
static ArrThrower *ct_arr(int n) { return new ArrThrower[n]; }
#include "noduma.h"
#line 180 "exec_cpp.cpp"

extern "C" int x_ctor(int which, int mode) {
  try {
    switch (which) {
    case 0: { Thrower *t = ct_new(mode); operator delete(t); return 0; }
    case 1: { ArrThrower::left = mode; ArrThrower *t = ct_arr(4); delete[] t; return 0; }
    case 2: { Thrower *t = new Thrower(mode); delete t; return 0; }
    case 3: { Thrower *t = new (std::nothrow) Thrower(mode); delete t; return 0; }
    case 4: { ArrThrower::left = mode; ArrThrower *t = new (std::nothrow) ArrThrower[4]; delete[] t; return 0; }
#if !defined(DUMA_NO_CPP_SUPPORT) && !defined(DUMA_NO_LEAKDETECTION)
    case 5: { Thrower *t = new (std::nothrow, "nt.cpp", 77) Thrower(mode); operator delete(t, "nt.cpp", 78); return 0; }
    case 6: { ArrThrower::left = mode; ArrThrower *t = new (std::nothrow, "nt.cpp", 79) ArrThrower[4]; delete[] t; return 0; }
#endif
    }
  } catch (int v) {
    return v;
  }
  return -1;
}

/* Trees of objects deleted by destructors through the delete macro.
 * v[] describes node i: v[4*i]=first child (or -1), v[4*i+1]=statement used for
 * it (0..3), v[4*i+2]=second child (or -1), v[4*i+3]=statement for it.
 * A child index of -2 is a block from new[] (a mismatch when deleted). */
struct Node;
static __thread const long *tv;
static __thread int tn;
static __thread Node *nodes[512];
static __thread char *bad_block;
static void del_child(long c, long stmt);
static void del_plain(int what) { if (what) operator delete(bad_block); else operator delete(operator new(8)); }
struct Inner {
  long x;
  Inner() : x(0) {}
  ~Inner();
};
struct Node {
  int id;
  Node(int i) : id(i) {}
  ~Node() {
    del_child(tv[4 * id], tv[4 * id + 1]);
    del_child(tv[4 * id + 2], tv[4 * id + 3]);
  }
};
#if !defined(DUMA_NO_CPP_SUPPORT) && !defined(DUMA_NO_LEAKDETECTION)
#include "dumapp.h"
#endif
#line 400 "tree_site.cpp"
static void del_child(long c, long stmt) {
  if (c == -1) return;
  if (c == -2) {
    switch (stmt) {
    case 0: delete (Sz<24> *)bad_block; return;
    case 1: delete (Sz<24> *)bad_block; return;
    case 2: delete (Sz<24> *)bad_block; return;
    default: delete (Sz<24> *)bad_block; return;
    }
  }
  if (c == -3) { /* plain new, released correctly */
    switch (stmt) {
    case 0: delete new int; return;
    case 1: delete (int *)0; return;
    case 2: delete[] new Inner[3]; return;
    default: delete[] new char[5]; return;
    }
  }
  if (c == -4) { del_plain((int)stmt); return; }
  switch (stmt) {
  case 0: delete nodes[c]; return;
  case 1: delete nodes[c]; return;
  case 2: delete nodes[c]; return;
  default: delete nodes[c]; return;
  }
}
static void del_root() { delete nodes[0]; }
static void make_bad() { bad_block = new char[24]; }
static Node *make_node(int i) { return new Node(i); }
Inner::~Inner() { delete new int; delete[] (char *)0; }
#include "noduma.h"
#line 250 "exec_cpp.cpp"

extern "C" void x_tree(int n, const long *v) {
  tn = n; tv = v;
  make_bad();
  for (int i = 0; i < n; ++i) nodes[i] = make_node(i);
  del_root();
  operator delete[](bad_block);
}
extern "C" void *x_tree_node(int i) { return nodes[i]; }

/* library routines that allocate behind the scenes */
extern "C" long x_exotic(int which, long n) {
  switch (which) {
  case 0: { std::string s; for (long i = 0; i < n; ++i) s += (char)('a' + i % 26); return (long)s.size(); }
  case 1: { std::vector<int> v; long t = 0; for (long i = 0; i < n; ++i) v.push_back((int)i); for (size_t i = 0; i < v.size(); ++i) t += v[i]; return t; }
  }
  return 0;
}
