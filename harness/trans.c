/* trans FILE : performs the acts in FILE (lines "op a b c"), a correct program
 * whatever they are, and prints what it sees. What it prints may not depend on
 * which allocator serves it.
 * Memory that belongs to the C library is released with (free)(p), which the
 * function-like macros of duma.h leave alone. */
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <argz.h>
#include <dirent.h>
#include <dlfcn.h>
#include <envz.h>
#include <errno.h>
#include <fcntl.h>
#include <ftw.h>
#include <fts.h>
#include <getopt.h>
#include <glob.h>
#include <grp.h>
#include <iconv.h>
#include <langinfo.h>
#include <limits.h>
#include <locale.h>
#include <malloc.h>
#include <obstack.h>
#include <poll.h>
#include <pthread.h>
#include <pwd.h>
#include <regex.h>
#include <search.h>
#include <semaphore.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <wchar.h>
#include <spawn.h>
#include <netdb.h>
#include <arpa/inet.h>
#include <printf.h>
#include <wordexp.h>

#ifdef WITH_HEADER
#include "duma.h"
#endif

typedef unsigned char u8;
typedef unsigned long ul;

extern char **environ;
static char me[4096], script[4096];

static void out(const char *fmt, ...) {
  char b[4096];
  va_list l;
  int n;
  va_start(l, fmt);
  n = vsnprintf(b, sizeof b, fmt, l);
  va_end(l);
  if (n > (int)sizeof b - 1)
    n = sizeof b - 1;
  if (write(1, b, n) < 0)
    _exit(99);
}

static ul hash(const void *p, size_t n) {
  const u8 *q = p;
  ul h = 5381;
  while (n--)
    h = h * 33 + *q++;
  return h & 0xFFFFFFFFFFFFul;
}

/* ---- a table of blocks ---------------------------------------------- */

#define NS 24
struct slot {
  u8 *p;
  size_t n;    /* bytes written */
  int lib;     /* belongs to the library */
  int set;     /* contents known */
};
static struct slot S[NS];

static size_t size_of(unsigned b) {
  static const size_t big[] = {4095, 4096, 4097, 8192, 65536, 131072, 200000, 12288, 5000, 65535};
  if (b % 5 == 0)
    return big[b / 5 % 10];
  if (b % 5 == 1)
    return 1 + b / 5 % 4000;
  return 1 + b / 5 % 100;
}

static void pat(u8 *p, size_t n, unsigned s) {
  size_t i;
  for (i = 0; i < n; i++)
    p[i] = (u8)(s * 7 + i * 13 + (i >> 8));
}

static void drop(struct slot *s) {
  if (!s->p)
    return;
  errno = 77;
  if (s->lib)
    (free)(s->p);
  else
    free(s->p);
  if (errno != 77)
    out("errno changed by free: %d\n", errno);
  s->p = 0;
  s->set = 0;
}

static void take(struct slot *s, void *p, size_t n, int lib, unsigned seed) {
  if (!p) {
    out("no memory\n");
    return;
  }
  s->p = p;
  s->n = n;
  s->lib = lib;
  s->set = 1;
  pat(s->p, n, seed);
}

/* mostly one that is in use */
static struct slot *used(unsigned a, int ours) {
  unsigned i, k;
  for (i = 0; a / NS % 4 && i < NS; i++) {
    k = (a + i) % NS;
    if (S[k].p && !(ours && S[k].lib))
      return &S[k];
  }
  return &S[a % NS];
}

static void heap(char op, unsigned a, unsigned b, unsigned c) {
  struct slot *s = used(a, op == 'Z' || op == 'u');
  size_t n = size_of(b), al, i;
  void *v;
  char *t;
  if (strchr("mcAMPVWdz", op))
    s = &S[a % NS];
  switch (op) {
  case 'm':
    drop(s);
    errno = 77;
    v = malloc(n);
    if (v && errno != 77)
      out("errno changed by malloc: %d\n", errno);
    take(s, v, n, 0, c);
    break;
  case 'c':
    drop(s);
    al = 1 + c % 9;
    v = calloc(n, al);
    for (i = 0; v && i < n * al; i++)
      if (((u8 *)v)[i])
        out("calloc not zero\n");
    take(s, v, n * al, 0, c);
    break;
  case 'r': {
    ul h;
    size_t k = s->p && s->set ? (s->n < n ? s->n : n) : 0;
    h = k ? hash(s->p, k) : 0;
    errno = 77;
    v = s->lib && s->p ? (realloc)(s->p, n) : realloc(s->p, n);
    if (v && errno != 77)
      out("errno changed by realloc: %d\n", errno);
    out("realloc %d\n", k && v ? hash(v, k) == h : v != 0);
    if (v) {
      int lib = s->p ? s->lib : 0;
      take(s, v, n, lib, c);
    }
    break;
  }
  case 'R':
    if (s->p && !s->lib)
      drop(s);
    al = 1 + c % 5;
    v = reallocarray(s->p, n, al);
    if (s->p == 0)
      s->lib = 1;
    out("reallocarray %d\n", v != 0);
    if (v)
      take(s, v, n * al, 1, c);
    break;
  case 'A':
    drop(s);
    al = (size_t)1 << c % 14;
    n = (n + al - 1) / al * al;
    v = aligned_alloc(al, n);
    out("aligned %d\n", (uintptr_t)v % al == 0);
    take(s, v, n, 0, c);
    break;
  case 'M':
    drop(s);
    al = (size_t)1 << c % 14;
    v = memalign(al, n);
    out("memalign %d\n", (uintptr_t)v % al == 0);
    take(s, v, n, 0, c);
    break;
  case 'P':
    drop(s);
    al = sizeof(void *) << c % 11;
    v = 0;
    i = posix_memalign(&v, al, n);
    out("posix_memalign %d %d\n", (int)i, (uintptr_t)v % al == 0);
    take(s, v, n, 0, c);
    v = &v;
    out("bad alignment %d %d\n", posix_memalign(&v, 24, 5), posix_memalign(&v, sizeof(void *) / 2, 5));
    break;
  case 'V':
    drop(s);
    v = valloc(n);
    out("valloc %d\n", (uintptr_t)v % 4096 == 0);
    take(s, v, n, 0, c);
    break;
  case 'W':
    drop(s);
    v = (pvalloc)(n);
    n = (n + 4095) / 4096 * 4096;
    out("pvalloc %d\n", (uintptr_t)v % 4096 == 0);
    take(s, v, n, 1, c);
    break;
  case 'd':
    drop(s);
    {
      char b2[300];
      n = b % 299;
      for (i = 0; i < n; i++)
        b2[i] = 'a' + (i * 7 + c) % 26;
      b2[n] = 0;
      if (c & 1) {
        t = strdup(b2);
        s->lib = 0;
      } else {
        t = (strndup)(b2, n - n / 3);
        s->lib = 1;
      }
      out("dup %s\n", t);
      s->p = (u8 *)t;
      s->n = strlen(t) + 1;
      s->set = 1;
    }
    break;
  case 'f':
    drop(s);
    break;
  case 'u':
    if (s->p && !s->lib)
      out("usable %d %d\n", malloc_usable_size(s->p) >= s->n, (int)malloc_usable_size(0));
    break;
  case 'w':
    if (s->p)
      pat(s->p, s->n, c), s->set = 1;
    break;
  case 'k':
    if (s->p && s->set)
      out("sum %d %lu %lx\n", (int)(s - S), (ul)s->n, hash(s->p, s->n));
    break;
  case 'z':
    /* zero size */
    drop(s);
    switch (c % 6) {
    case 0: v = malloc(0); break;
    case 1: v = calloc(0, n); break;
    case 2: v = calloc(n, 0); break;
    case 3: v = realloc(0, 0); break;
    case 4: v = memalign(64, 0); break;
    default: if (posix_memalign(&v, 64, 0)) v = 0; break;
    }
    out("zero %d\n", v != 0);
    if (b & 1 && c % 6 < 4) {
      v = realloc(v, n);
      out("grown %d\n", v != 0);
      take(s, v, n, 0, c);
    } else
      free(v);
    break;
  case 'Z':
    /* shrunk to nothing */
    if (s->p && !s->lib) {
      errno = 77;
      v = realloc(s->p, 0);
      if (errno != 77)
        out("errno changed by realloc: %d\n", errno);
      out("to nothing %d\n", v == 0);
      s->p = 0;
      s->set = 0;
    }
    free(0);
    break;
  case 'y': {
    struct slot *d = used(b, 0);
    if (s->p && d->p && s->p != d->p && s->set && d->set) {
      n = s->n < d->n ? s->n : d->n;
      v = memcpy(d->p + (d->n - n), s->p + (s->n - n), n);
      out("copy %d\n", v == d->p + (d->n - n));
    } else if (s->p && s->set) {
      n = s->n / 2 + c % (s->n - s->n / 2 + 1);
      if (b & 1)
        v = memmove(s->p + (s->n - n), s->p, n);
      else
        v = memmove(s->p, s->p + (s->n - n), n);
      out("move %lx\n", hash(s->p, s->n));
    }
    break;
  }
  case 's': {
    /* strings in buffers of exactly their size */
    size_t x = b % 60, y = c % 60, lim = (b >> 6) % 70;
    char *p = malloc(x + 1), *q = malloc(y + 1), *d = malloc(x + y + 1), *e = malloc(lim + 1);
    memset(p, 'p', x);
    p[x] = 0;
    memset(q, 'q', y);
    q[y] = 0;
    out("%d", strcpy(d, p) == d);
    out(" %d", strcat(d, q) == d);
    out(" %s", d);
    memset(e, 'e', lim);
    out(" %d", lim ? strncpy(e, d, lim) == e : 1);
    out(" %lx", hash(e, lim));
    strcpy(d, p);
    out(" %d", strncat(d, q, lim) == d);
    out(" %s %d", d, (int)strlen(d));
    d = realloc(d, strlen(d) + 1);
    out(" %s\n", d);
    free(p);
    free(e);
    free(q);
    free(d);
    break;
  }
  case 'b': {
    /* many at once, released in another order */
    void *t2[64];
    unsigned k = 1 + b % 64, j;
    for (j = 0; j < k; j++) {
      t2[j] = j % 3 ? malloc(1 + (c + j * 37) % 700) : calloc(1, 1 + (c + j) % 300);
      *(u8 *)t2[j] = (u8)j;
    }
    for (j = 0; j < k; j++) {
      unsigned z = (j * (2 * (c % 16) + 1) * 2 + 0) % k;
      (void)z;
    }
    for (j = 0, i = 0; j < k; j++)
      i += *(u8 *)t2[k - 1 - j];
    for (j = 0; j < k; j++)
      free(t2[c & 1 ? j : k - 1 - j]);
    out("many %d\n", (int)i);
    break;
  }
  case 'h':
    /* more than there is: the one who asks for a null pointer gets one */
    if (getenv("DUMA_MALLOC_FAILEXIT") && !strcmp(getenv("DUMA_MALLOC_FAILEXIT"), "0")) {
      static const size_t huge[] = {SIZE_MAX, SIZE_MAX - 1, SIZE_MAX / 2, PTRDIFF_MAX, (size_t)1 << 62, SIZE_MAX - 4096, SIZE_MAX - 100000};
      volatile size_t hs = huge[b % 7];
      if (c % 3 == 0)
        v = malloc(hs);
      else if (c % 3 == 1)
        v = calloc(hs / 3, 4);
      else
        v = s->p && !s->lib ? realloc(s->p, hs) : 0;
      out("huge %d\n", v == 0);
      if (s->p && s->set)
        out("kept %lx\n", hash(s->p, s->n));
    }
    break;
  }
}

/* ---- the C library --------------------------------------------------- */

static int cmp_l(const void *a, const void *b) {
  long x = *(const long *)a, y = *(const long *)b;
  return x < y ? -1 : x > y;
}
static int cmp_r(const void *a, const void *b, void *arg) { return cmp_l(a, b) * (*(int *)arg); }
static int cmp_s(const void *a, const void *b) { return strcmp(a, b); }
static int ncmp_for_tree;
static void walk(const void *n, VISIT v, int depth) {
  if (v == postorder || v == leaf)
    out("%s ", *(char *const *)n);
}
static void nodefree(void *p) { free(p); }
static int ftw_n;
static int on_ftw(const char *p, const struct stat *st, int flag) {
  ftw_n += flag == FTW_F;
  return 0;
}
static int only_mk(const struct dirent *d) { return !strncmp(d->d_name, "mk", 2); }

static ssize_t ck_write(void *cookie, const char *b, size_t n) {
  *(ul *)cookie = *(ul *)cookie * 31 + hash(b, n);
  return n;
}

static void lib(unsigned k, unsigned b, unsigned c) {
  char *t = 0, *u;
  size_t n = 0, i;
  FILE *f;
  switch (k % 40) {
  case 0: { /* getline */
    char buf[3000];
    ssize_t r;
    for (i = 0; i < sizeof buf; i++)
      buf[i] = (i * (b | 1) + c) % 97 == 5 ? '\n' : 'a' + i % 26;
    f = fmemopen(buf, sizeof buf, "r");
    while ((r = getline(&t, &n, f)) > 0)
      out("line %ld %lx\n", (long)r, hash(t, r));
    (free)(t);
    fclose(f);
    break;
  }
  case 1:
    i = asprintf(&t, "%s-%d-%*d-%.*f", "text", (int)b, 5 + (int)(c % 600), 77, (int)(c % 300), 1.25 + b);
    out("asprintf %d %lx\n", (int)i, hash(t, i));
    (free)(t);
    break;
  case 2:
    f = open_memstream(&t, &n);
    for (i = 0; i < b % 700; i++)
      fprintf(f, "%d,", (int)i);
    fflush(f);
    out("memstream %d %lx\n", (int)n, hash(t, n));
    fputs("more", f);
    fclose(f);
    out("memstream %d %lx\n", (int)n, hash(t, n));
    (free)(t);
    break;
  case 3: {
    long *v = malloc((1 + b % 400) * sizeof(long) * 1);
    int dir = c & 1 ? 1 : -1;
    for (i = 0; i < 1 + b % 400; i++)
      v[i] = (long)(i * 7919 + c) % 1009;
    if (c & 2)
      qsort(v, 1 + b % 400, sizeof(long), cmp_l);
    else
      qsort_r(v, 1 + b % 400, sizeof(long), cmp_r, &dir);
    out("sorted %lx\n", hash(v, (1 + b % 400) * sizeof(long)));
    free(v);
    break;
  }
  case 4: {
    /* elements larger than qsort wants on the stack */
    char(*v)[200] = malloc(200 * (1 + b % 90));
    memset(v, 0, 200 * (1 + b % 90));
    for (i = 0; i < 1 + b % 90; i++)
      sprintf(v[i], "%d", (int)((i * 7919 + c) % 1009));
    qsort(v, 1 + b % 90, 200, cmp_s);
    out("sorted %lx\n", hash(v, 200 * (1 + b % 90)));
    free(v);
    break;
  }
  case 5: {
    static const char *re[] = {"a(b|c)*d", "^[a-z]{2,5}(x+|y+)?$", "(.*)foo(.*)bar", "[[:digit:]]+\\.[[:digit:]]*", "(a|ab)(c|bcd)(d*)"};
    regex_t r;
    regmatch_t m[4];
    int x = regcomp(&r, re[b % 5], REG_EXTENDED | (c & 1 ? REG_ICASE : 0)), y;
    y = regexec(&r, c & 2 ? "abcbcd 12.5 foo and bar" : "abcd", 4, m, 0);
    out("regex %d %d %d %d\n", x, y, y ? 0 : (int)m[0].rm_so, y ? 0 : (int)m[0].rm_eo);
    regfree(&r);
    break;
  }
  case 6:
    t = getcwd(0, 0);
    u = realpath(".", 0);
    out("cwd %d\n", t && u && !strcmp(t, u));
    (free)(t);
    (free)(u);
    break;
  case 7: {
    char nm[40], vl[200];
    sprintf(nm, "TRANS_%d", b % 6);
    memset(vl, 'v', 1 + c % 190);
    vl[1 + c % 190] = 0;
    setenv(nm, vl, 1);
    if (c & 1)
      unsetenv("TRANS_2");
    if (c % 5 == 0)
      putenv((char *)"TRANS_P=static");
    for (i = 0; i < 6; i++) {
      sprintf(nm, "TRANS_%d", (int)i);
      t = getenv(nm);
      out("%d ", t ? (int)strlen(t) : -1);
    }
    out("%s\n", getenv("TRANS_P") ? getenv("TRANS_P") : "-");
    break;
  }
  case 8: {
    struct dirent **l;
    char nm[20];
    int x, j;
    for (j = 0; j < (int)(b % 9); j++) {
      sprintf(nm, "mk%d", j * 3);
      close(open(nm, O_CREAT | O_WRONLY, 0600));
    }
    x = scandir(".", &l, only_mk, alphasort);
    for (j = 0; j < x; j++) {
      out("%s ", l[j]->d_name);
      (free)(l[j]);
    }
    (free)(l);
    out("= %d\n", x);
    for (j = 0; j < (int)(b % 9); j++) {
      sprintf(nm, "mk%d", j * 3);
      unlink(nm);
    }
    break;
  }
  case 9: {
    void *root = 0;
    for (i = 0; i < b % 30; i++) {
      char w[20];
      sprintf(w, "k%d", (int)((i * 17 + c) % 23));
      t = strdup(w);
      if (*(char **)tsearch(t, &root, cmp_s) != t)
        free(t);
    }
    for (i = 0; i < 3; i++) {
      char w[20], **x;
      sprintf(w, "k%d", (int)((i * 5 + c) % 23));
      x = (char **)tfind(w, &root, cmp_s);
      out("%s ", x ? *x : "-");
      if (x) {
        t = *x;
        tdelete(w, &root, cmp_s);
        free(t);
      }
    }
    twalk(root, walk);
    tdestroy(root, nodefree);
    out("tree\n");
    break;
  }
  case 10: {
    struct hsearch_data h;
    ENTRY e, *r;
    memset(&h, 0, sizeof h);
    hcreate_r(10 + b % 50, &h);
    for (i = 0; i < b % 40; i++) {
      char w[20];
      sprintf(w, "h%d", (int)(i % 15));
      e.key = strdup(w);
      e.data = (void *)i;
      hsearch_r(e, FIND, &r, &h);
      if (r)
        free(e.key);
      else
        hsearch_r(e, ENTER, &r, &h);
    }
    for (i = 0; i < 15; i++) {
      char w[20];
      sprintf(w, "h%d", (int)i);
      e.key = w;
      hsearch_r(e, FIND, &r, &h);
      out("%d ", r ? (int)(long)r->data : -1);
      if (r)
        free(r->key), r->key = (char *)"";
    }
    hdestroy_r(&h);
    out("hash\n");
    break;
  }
  case 11: {
    time_t tt = 86400L * b + c;
    struct tm tm;
    char w[100];
    /* the reader of time zone files relies on memory of odd sizes to be aligned */
    setenv("TZ", c & 2 ? "EST5EDT,M3.2.0,M11.1.0" : atoi(getenv("DUMA_ALIGNMENT") ? getenv("DUMA_ALIGNMENT") : "1") < 8 ? "UTC0" : c & 1 ? "UTC" : "Europe/Berlin", 1);
    tzset();
    localtime_r(&tt, &tm);
    strftime(w, sizeof w, "%Y-%m-%d %H:%M:%S %Z", &tm);
    out("time %s %s", w, ctime(&tt));
    unsetenv("TZ");
    tzset();
    break;
  }
  case 12: {
    iconv_t ic = iconv_open(b & 1 ? "UTF-16LE" : "UCS-4", b & 2 ? "UTF-8" : "ISO-8859-1");
    char in[] = "some text to convert", o[200], *ip = in, *op = o;
    size_t il = strlen(in), ol = sizeof o;
    if (ic == (iconv_t)-1) {
      out("no iconv\n");
      break;
    }
    i = iconv(ic, &ip, &il, &op, &ol);
    out("iconv %d %lx\n", (int)i, hash(o, sizeof o - ol));
    iconv_close(ic);
    break;
  }
  case 13: {
    locale_t l;
    t = setlocale(LC_ALL, c & 1 ? "C.UTF-8" : "");
    out("locale %s", t ? t : "-");
    l = newlocale(LC_ALL_MASK, c & 2 ? "C.UTF-8" : "C", 0);
    if (l) {
      locale_t d = duplocale(l);
      out(" %d", strcoll_l("abc", "abd", d) < 0);
      freelocale(d);
      freelocale(l);
    }
    out(" %s\n", nl_langinfo(CODESET));
    setlocale(LC_ALL, "C");
    break;
  }
  case 14: {
    glob_t g;
    close(open("mkg1", O_CREAT | O_WRONLY, 0600));
    close(open("mkg2", O_CREAT | O_WRONLY, 0600));
    i = glob(b & 1 ? "mkg*" : "./mk{g1,g2,zz}", GLOB_BRACE | (c & 1 ? GLOB_MARK : 0), 0, &g);
    out("glob %d", (int)i);
    if (!i) {
      for (i = 0; i < g.gl_pathc; i++)
        out(" %s", g.gl_pathv[i]);
      globfree(&g);
    }
    out("\n");
    unlink("mkg1");
    unlink("mkg2");
    break;
  }
  case 15: {
    void *d = dlopen(b & 1 ? "libm.so.6" : "libresolv.so.2", c & 1 ? RTLD_NOW : RTLD_LAZY);
    void *x = d ? dlsym(d, b & 1 ? "cos" : "ns_get16") : 0;
    out("dl %d %d", d != 0, x != 0);
    if (d && b & 1)
      out(" %d", (int)(((double (*)(double))x)(0.0)));
    x = dlopen("libnothere.so.77", RTLD_NOW);
    out(" %d %d", x != 0, dlerror() != 0);
    if (d)
      dlclose(d);
    out("\n");
    break;
  }
  case 16: {
    struct passwd *p = getpwuid(0);
    struct group *g = getgrgid(0);
    out("user %s %s\n", p ? p->pw_name : "-", g ? g->gr_name : "-");
    break;
  }
  case 17: {
    char w[100] = "";
    f = popen(b & 1 ? "echo from the shell; exit 3" : "read x; printf '<%s>' \"$x\"", "r");
    i = fread(w, 1, 99, f);
    w[i] = 0;
    out("popen %s", w);
    out(" %d\n", pclose(f));
    break;
  }
  case 18: {
    char cmd[60];
    sprintf(cmd, "exit %d", b % 50);
    out("system %d\n", system(cmd));
    break;
  }
  case 19: {
    ul h = 0;
    cookie_io_functions_t io = {0, ck_write, 0, 0};
    f = fopencookie(&h, "w", io);
    if (c & 1)
      setvbuf(f, 0, _IOFBF, 100 + c % 5000);
    if (c & 2)
      setvbuf(f, 0, _IONBF, 0);
    for (i = 0; i < 1 + b % 300; i++)
      fprintf(f, "%5d|", (int)i);
    fclose(f);
    out("cookie %d\n", h != 0);
    break;
  }
  case 20: {
    int x;
    x = sscanf("word 42 rest of it", b & 1 ? "%ms %d" : "%m[a-z] %d", &t, (int *)&n);
    out("scanf %d %s %d\n", x, t, (int)n);
    (free)(t);
    break;
  }
  case 21: {
    char *az = 0;
    size_t al = 0;
    argz_create_sep("one:two::three:four", ':', &az, &al);
    argz_add(&az, &al, "five");
    argz_insert(&az, &al, az + 4, "inserted");
    argz_delete(&az, &al, az);
    for (t = 0; (t = argz_next(az, al, t));)
      out("%s,", t);
    (free)(az);
    az = 0;
    al = 0;
    envz_add(&az, &al, "K", "value");
    envz_add(&az, &al, "L", "other");
    envz_add(&az, &al, "K", "changed, longer than it was");
    out("%s %d\n", envz_get(az, al, "K"), (int)al);
    (free)(az);
    break;
  }
  case 22: {
    struct obstack o;
#define obstack_chunk_alloc malloc
#define obstack_chunk_free free
    obstack_init(&o);
    for (i = 0; i < b % 300; i++)
      obstack_grow(&o, "0123456789", 1 + i % 10);
    obstack_1grow(&o, 0);
    t = obstack_finish(&o);
    u = obstack_copy0(&o, t, c % 50 <= strlen(t) ? c % 50 : 0);
    out("obstack %lx %s\n", hash(t, strlen(t)), u);
    obstack_free(&o, 0);
    break;
  }
  case 23: {
    wchar_t w[200], *d;
    setlocale(LC_ALL, "C.UTF-8");
    n = mbstowcs(w, "gr\xc3\xbc\xc3\x9f text", 200);
    d = wcsdup(w);
    out("wide %d %lx\n", (int)n, d ? hash(d, n * sizeof *d) : 0);
    (free)(d);
    i = swprintf(w, 200, L"%ls %d %150s", L"x", (int)b, "y");
    out("wide %d\n", (int)i);
    setlocale(LC_ALL, "C");
    break;
  }
  case 24: { /* positional and very wide conversions allocate */
    char *w = malloc(9000);
    i = snprintf(w, 9000, "%2$s %1$*3$d %2$s %5$.*4$f", (int)b, "pos", 1 + (int)(c % 3000), (int)(c % 2000), 3.5);
    out("printf %d %lx\n", (int)i, hash(w, i < 9000 ? i : 8999));
    free(w);
    break;
  }
  case 25: {
    int p[2];
    char w[50];
    FILE *g;
    if (pipe(p))
      break;
    f = fdopen(p[1], "w");
    g = fdopen(p[0], "r");
    fprintf(f, "through a pipe %d\n", (int)b);
    fclose(f);
    out("pipe %s", fgets(w, 50, g));
    fclose(g);
    break;
  }
  case 26: {
    f = tmpfile();
    for (i = 0; i < b % 2000; i++)
      fputc('a' + i % 26, f);
    rewind(f);
    for (n = 0; (i = fgetc(f)) != (size_t)EOF;)
      n = n * 31 + i;
    out("tmpfile %lx\n", (ul)n);
    fclose(f);
    break;
  }
  case 27: {
    /* descriptors are handed out as ever */
    int x = open("/dev/null", O_RDONLY), y = dup(x);
    out("fd %d %d\n", x, y);
    close(x);
    close(y);
    break;
  }
  case 28: {
    struct rlimit r;
    sigset_t m;
    struct sigaction sa;
    sigprocmask(0, 0, &m);
    for (i = 1, n = 0; i < 32; i++) {
      sigaction(i, 0, &sa);
      n = n * 3 + sigismember(&m, i) + (sa.sa_handler != SIG_DFL);
    }
    getrlimit(RLIMIT_STACK, &r);
    out("signals %lx umask %o\n", (ul)n, umask(022));
    break;
  }
  case 29: {
    wordexp_t w;
    i = wordexp(b & 1 ? "a b 'c d' $TRANS_0" : "\"${TRANS_9:-dflt}\" x*y", &w, c & 1 ? WRDE_NOCMD : 0);
    out("wordexp %d", (int)i);
    if (!i) {
      for (i = 0; i < w.we_wordc; i++)
        out(" [%.20s]", w.we_wordv[i]);
      wordfree(&w);
    }
    out("\n");
    break;
  }
  case 30: {
    mkdir("tree", 0700);
    mkdir("tree/sub", 0700);
    close(open("tree/a", O_CREAT | O_WRONLY, 0600));
    close(open("tree/sub/b", O_CREAT | O_WRONLY, 0600));
    ftw_n = 0;
    i = ftw("tree", on_ftw, 3);
    out("ftw %d %d", (int)i, ftw_n);
    {
      char *const p[] = {(char *)"tree", 0};
      FTS *fs = fts_open(p, FTS_PHYSICAL, 0);
      FTSENT *e;
      while (fs && (e = fts_read(fs)))
        out(" %d", e->fts_level);
      if (fs)
        fts_close(fs);
    }
    out("\n");
    unlink("tree/sub/b");
    unlink("tree/a");
    rmdir("tree/sub");
    rmdir("tree");
    break;
  }
  case 31: {
    char num[400];
    memset(num, '1' + c % 9, 300);
    strcpy(num + 300, "e-290");
    out("strtod %.6g %ld\n", strtod(num, 0), strtol("0x7fff", 0, 0) + (long)b);
    break;
  }
  case 32: {
    out("errors %s", strerror(b % 140));
    out(" %s", strsignal(1 + c % 70));
    out(" %s\n", strerror(100000 + b));
    break;
  }
  case 33: {
    struct addrinfo h, *r = 0;
    memset(&h, 0, sizeof h);
    h.ai_flags = AI_NUMERICHOST | AI_NUMERICSERV;
    h.ai_socktype = SOCK_STREAM;
    i = getaddrinfo(b & 1 ? "127.0.0.1" : "::1", "80", &h, &r);
    out("addrinfo %d %d\n", (int)i, r ? r->ai_family : 0);
    if (r)
      freeaddrinfo(r);
    break;
  }
  case 34: {
    /* a big buffer of a stream taken from the program */
    char *vb = malloc(300 + c % 9000);
    f = fopen("mkfile", "w+");
    setvbuf(f, vb, _IOFBF, 300 + c % 9000);
    for (i = 0; i < b % 3000; i++)
      fputs("line\n", f);
    fseek(f, 5 * (b % 3000) / 2, SEEK_SET);
    n = fgetc(f);
    out("stream %ld %d\n", ftell(f), (int)n);
    fclose(f);
    free(vb);
    unlink("mkfile");
    break;
  }
  case 35: {
    char *av[] = {(char *)"prog", (char *)"-a", (char *)"operand", (char *)"--long=5", (char *)"-b7", 0};
    static const struct option lo[] = {{"long", required_argument, 0, 'l'}, {0, 0, 0, 0}};
    int o;
    optind = 0;
    while ((o = getopt_long(5, av, "ab:", lo, 0)) != -1)
      out("%c%s ", o, optarg ? optarg : "");
    out("%s\n", av[optind]);
    break;
  }
  case 36: {
    pid_t p;
    char *av[] = {(char *)"/bin/sh", (char *)"-c", (char *)"exit 7", 0};
    int stt = 0;
    i = posix_spawn(&p, "/bin/sh", 0, 0, av, environ);
    waitpid(p, &stt, 0);
    out("spawn %d %d\n", (int)i, WEXITSTATUS(stt));
    break;
  }
  case 37: {
    struct iovec v[3];
    int p[2];
    char *x = malloc(10), *y = malloc(20), w[31];
    memset(x, 'x', 10);
    memset(y, 'y', 20);
    v[0].iov_base = x, v[0].iov_len = 10;
    v[1].iov_base = y, v[1].iov_len = b % 21;
    if (pipe(p))
      break;
    n = writev(p[1], v, 2);
    i = read(p[0], w, 30);
    out("iovec %d %d %lx\n", (int)n, (int)i, hash(w, i));
    free(x);
    free(y);
    close(p[0]);
    close(p[1]);
    break;
  }
  case 38: {
    /* a system call into a block that ends at the end of the page */
    u8 *x = malloc(1 + b % 300);
    int fd = open("/dev/zero", O_RDONLY);
    pat(x, 1 + b % 300, c);
    n = read(fd, x, 1 + b % 300);
    for (i = 0; i < 1 + b % 300; i++)
      n += x[i];
    out("read %d\n", (int)n);
    close(fd);
    free(x);
    break;
  }
  default: {
    const char *w = "a,b;c  d";
    char *p = strdup(w), *sv = 0, *q;
    for (q = strtok_r(p, ",; ", &sv); q; q = strtok_r(0, ",; ", &sv))
      out("<%s>", q);
    out("%d %s\n", (int)strspn(w, "abc,"), strpbrk(w, ";"));
    free(p);
    q = strdup("basename/of/this");
    out("%s %d\n", strrchr(q, '/'), strncmp(q, "base", 4));
    free(q);
  }
  }
}

/* ---- threads, processes, stacks ---------------------------------------- */

static pthread_key_t key;
static ul ended;
static void key_end(void *p) {
  __sync_fetch_and_add(&ended, *(ul *)p);
  free(p);
}
struct job {
  unsigned k, b, c;
  ul r;
  void *in;
};

static void *worker(void *x) {
  struct job *j = x;
  unsigned i;
  u8 *keep[8] = {0};
  ul *o = malloc(sizeof *o);
  *o = j->k;
  pthread_setspecific(key, o);
  for (i = 0; i < 8 + j->b % 24; i++) {
    unsigned z = (i * 5 + j->k * 3 + j->c) % 8;
    size_t n = 1 + (i * 131 + j->c * 7 + j->k) % 3000;
    if (keep[z] && i % 3) {
      j->r += keep[z][0];
      free(keep[z]);
      keep[z] = 0;
    } else {
      keep[z] = realloc(keep[z], n);
      memset(keep[z], (int)(i + j->k), n);
    }
  }
  for (i = 0; i < 8; i++)
    free(keep[i]);
  {
    char *s = strdup("given back by the thread");
    s[0] = (char)('A' + j->k);
    if (j->k & 1)
      pthread_exit(s);
    return s;
  }
}

static void threads(unsigned b, unsigned c) {
  pthread_t t[6];
  struct job j[6];
  unsigned i, n = 1 + b % 6;
  void *r;
  if (pthread_key_create(&key, key_end))
    return;
  ended = 0;
  for (i = 0; i < n; i++) {
    j[i].k = i, j[i].b = b, j[i].c = c, j[i].r = 0;
    if (pthread_create(&t[i], 0, worker, &j[i])) {
      out("no thread\n");
      _exit(90);
    }
    if (c & 1) {
      pthread_join(t[i], &r);
      out("thread %s %lu\n", (char *)r, j[i].r);
      free(r);
    }
  }
  for (i = 0; !(c & 1) && i < n; i++) {
    pthread_join(t[i], &r);
    out("thread %s %lu\n", (char *)r, j[i].r);
    free(r);
  }
  pthread_key_delete(key);
  out("ended %lu\n", ended);
}

static void *one_thread(void *x) {
  struct job *j = x;
  char *s;
  lib(j->b, j->c, j->k);
  s = strdup("single");
  return s;
}

static void child(unsigned b, unsigned c) {
  int st;
  pid_t p = fork();
  if (!p) {
    struct slot *s = &S[b % NS];
    heap('r', b, c, 5);
    heap('k', b, 0, 0);
    drop(s);
    lib(c, b, 3);
    if (c % 3 == 0)
      exit(40 + b % 10);
    if (c % 3 == 1)
      _exit(50 + b % 10);
    execl("/bin/sh", "sh", "-c", "exit 9", (char *)0);
    _exit(98);
  }
  if (p > 0 && waitpid(p, &st, 0) == p)
    out("child %x\n", st);
}

static ucontext_t here, there;
static ul co;
static void coroutine(void) {
  int i;
  for (i = 0; i < 3; i++) {
    char *p = malloc(10 + i);
    memset(p, i, 10 + i);
    co = co * 10 + p[3];
    free(p);
    swapcontext(&there, &here);
  }
}

static void stacks(unsigned b, unsigned c) {
  size_t n = 65536;
  char *stk = malloc(n);
  int i;
  co = 1;
  getcontext(&there);
  there.uc_stack.ss_sp = stk;
  there.uc_stack.ss_size = n;
  there.uc_link = &here;
  makecontext(&there, coroutine, 0);
  for (i = 0; i < 3 + (int)(b % 2); i++)
    swapcontext(&here, &there);
  free(stk);
  out("coroutine %lu\n", co);
}

static sigjmp_buf jb;
static void on_segv(int s, siginfo_t *si, void *u) { siglongjmp(jb, 1); }
static volatile int sigs;
static void on_usr(int s) { sigs++; }

static void sigtests(unsigned b, unsigned c) {
  struct sigaction sa, old, o2;
  stack_t ss, os;
  char *m = mmap(0, 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  volatile int caught = 0;
  memset(&ss, 0, sizeof ss);
  ss.ss_sp = malloc(65536);
  ss.ss_size = 65536;
  sigaltstack(&ss, &os);
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_segv;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  sigaction(SIGSEGV, &sa, &old);
  if (sigsetjmp(jb, 1))
    caught = 1;
  else
    *(volatile char *)m = 1;
  sigaction(SIGSEGV, &old, &o2);
  out("caught %d %d\n", caught, o2.sa_sigaction == on_segv);
  sa.sa_handler = on_usr;
  sa.sa_flags = SA_ONSTACK;
  sigs = 0;
  sigaction(SIGUSR1, &sa, &old);
  raise(SIGUSR1);
  kill(getpid(), SIGUSR1);
  sigaction(SIGUSR1, &old, 0);
  out("handled %d\n", sigs);
  ss.ss_flags = SS_DISABLE;
  sigaltstack(&os, 0);
  free(ss.ss_sp);
  munmap(m, 4096);
}

static int deep(int n, jmp_buf *j) {
  char *p = malloc(20);
  int r;
  memset(p, n, 20);
  if (n == 0) {
    free(p);
    longjmp(*j, 5);
  }
  free(p);
  r = deep(n - 1, j);
  return r;
}

/* ---- before and after main ---------------------------------------------- */

static char *early, *early2;
__attribute__((constructor)) static void before(void) {
  early = malloc(30);
  memset(early, 'e', 29);
  early[29] = 0;
  early2 = strdup("second");
  early2 = realloc(early2, 60);
  strcat(early2, " longer");
}
__attribute__((destructor)) static void after(void) {
  char b[100];
  int n = snprintf(b, sizeof b, "after %s %s\n", early ? early : "", early2 ? early2 : "");
  if (write(1, b, n) < 0)
    return;
  free(early);
  free(early2);
}
static char *at[4];
static int nat;
static void exit_fn(void) {
  --nat;
  out("atexit %s\n", at[nat]);
  free(at[nat]);
  at[nat] = 0;
  (void)malloc(7);
}
static void quick_fn(void) { out("quick\n"); }
static void onx(int st, void *p) {
  out("on_exit %d %s\n", st, (char *)p);
  free(p);
}
static void *late_thread(void *x) {
  usleep(20000);
  out("the last thread\n");
  free(x);
  return 0;
}
static void *exiting_thread(void *x) {
  int n = *(int *)x;
  free(x);
  exit(n);
}

static void ending(unsigned a, unsigned b, unsigned c) {
  pthread_t t;
  int *x, i;
  if (c & 1)
    for (i = 0; i < NS; i++)
      drop(&S[i]);
  switch (a % 14) {
  case 1:
    exit(b % 90);
  case 2:
    _exit(b % 90);
  case 3:
    at_quick_exit(quick_fn);
    quick_exit(b % 90);
  case 4:
    pthread_create(&t, 0, late_thread, malloc(9));
    pthread_detach(t);
    pthread_exit(0);
  case 5:
    x = malloc(sizeof *x);
    *x = b % 90;
    pthread_create(&t, 0, exiting_thread, x);
    pthread_join(t, 0);
  case 6:
    raise(b & 1 ? SIGTERM : SIGKILL);
  case 7:
    abort();
  case 8:
    if (!getenv("TRANS_AGAIN")) {
      setenv("TRANS_AGAIN", "1", 1);
      execl(me, me, script, (char *)0);
    }
    exit(3);
  case 9:
    on_exit(onx, strdup("handed on"));
    exit(b % 90);
  case 10:
    printf("buffered until exit %d", (int)b);
    exit(0);
  case 11:
    fclose(stdin);
    printf("text without newline");
    return;
  case 12:
    setvbuf(stdout, malloc(500), _IOFBF, 500);
    printf("in the program's buffer");
    exit(b % 3);
  default:
    return;
  }
}

int main(int argc, char **argv) {
  char line[100];
  FILE *f;
#if defined(WITH_HEADER) && defined(CALL_INIT)
  duma_init();
#endif
  if (argc < 2 || !(f = fopen(argv[1], "r")))
    return 97;
  if (readlink("/proc/self/exe", me, sizeof me - 1) < 0 || strlen(argv[1]) >= sizeof script)
    return 96;
  strcpy(script, argv[1]);
  while (fgets(line, sizeof line, f)) {
    char op[8];
    unsigned a, b, c;
    struct job j;
    pthread_t t;
    void *r;
    if (sscanf(line, "%7s %u %u %u", op, &a, &b, &c) != 4)
      continue;
    out("-%s\n", op);
    switch (op[0]) {
    case 'L': lib(a, b, c); break;
    case 'T': threads(b, c); break;
    case 'O':
      j.b = a, j.c = b, j.k = c;
      pthread_create(&t, 0, one_thread, &j);
      pthread_join(t, &r);
      out("%s\n", (char *)r);
      free(r);
      break;
    case 'F': child(a, b); break;
    case 'U': stacks(a, b); break;
    case 'G': sigtests(a, b); break;
    case 'J': {
      jmp_buf jb2;
      int k = setjmp(jb2);
      if (!k)
        deep(b % 20, &jb2);
      out("jumped %d\n", k);
      break;
    }
    case 'E':
      if (nat < 4) {
        at[nat] = strdup("kept for the exit");
        at[nat][0] = (char)('0' + nat);
        nat++;
        atexit(exit_fn);
      }
      break;
    case 'X': {
      /* arguments arrive as they are */
      int i;
      for (i = 2; i < argc; i++)
        out("[%s]", argv[i]);
      out("\n");
      break;
    }
    case 'I': {
      char w[60];
      out("stdin %s\n", fgets(w, sizeof w, stdin) ? w : "-");
      break;
    }
    case 'e':
      fprintf(stderr, "to stderr %u\n", a);
      break;
    case 'Q':
      fclose(f);
      ending(a, b, c);
      return b % 90;
    default: heap(op[0], a, b, c);
    }
  }
  fclose(f);
  return 0;
}
