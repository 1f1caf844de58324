/* transpp FILE : as trans.c, for C++ */
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <algorithm>
#include <deque>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <iterator>
#include <list>
#include <locale>
#include <map>
#include <memory>
#include <new>
#include <numeric>
#include <queue>
#include <regex>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <unordered_map>
#include <unordered_set>
#include <valarray>
#include <vector>
#include <thread>
#include <mutex>
#include <future>
#include <condition_variable>
#include <any>
#include <charconv>
#include <filesystem>
#include <memory_resource>
#include <optional>
#include <variant>
#include <stdint.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/wait.h>

typedef unsigned long ul;

static void out(const char *fmt, ...) {
  char b[4096];
  va_list l;
  va_start(l, fmt);
  int n = vsnprintf(b, sizeof b, fmt, l);
  va_end(l);
  if (n > (int)sizeof b - 1)
    n = sizeof b - 1;
  if (write(1, b, n) < 0)
    _exit(99);
}
static ul hash(const void *p, size_t n) {
  const unsigned char *q = (const unsigned char *)p;
  ul h = 5381;
  while (n--)
    h = h * 33 + *q++;
  return h & 0xFFFFFFFFFFFFul;
}
static ul hash(const std::string &s) { return hash(s.data(), s.size()); }

static unsigned rnd_state;
static unsigned rnd() { return rnd_state = rnd_state * 1103515245u + 12345u, rnd_state >> 8; }

/* things that live before and after main */
static std::map<std::string, std::vector<int> > global_map;
static std::string global_text = "a text that is too long to be kept inside of the string";
static std::shared_ptr<int> global_ptr(new int(41));
struct Global {
  char *p;
  std::list<int> l;
  Global() : p(new char[50]) {
    strcpy(p, "made before main");
    for (int i = 0; i < 5; i++)
      l.push_back(i);
  }
  ~Global() {
    out("global %s %d %s %d\n", p, (int)l.size(), global_text.c_str(), (int)global_map.size());
    delete[] p;
  }
};
static Global global;

struct Noisy {
  static int live, throw_at;
  int id;
  std::string s;
  Noisy() : id(live), s("noisy object, text on the heap, number ") {
    if (throw_at >= 0 && live >= throw_at)
      throw std::runtime_error("constructor, with a text that is long");
    s += (char)('0' + live % 10);
    live++;
  }
  ~Noisy() { live--; }
};
int Noisy::live, Noisy::throw_at = -1;

struct Base {
  virtual ~Base() {}
  virtual std::string name() const { return "base"; }
};
struct Derived : virtual Base {
  std::vector<long> v;
  Derived(int n) : v(n, 7) {}
  std::string name() const { return "derived"; }
};

struct Own {
  char c[40];
  static int made, gone;
  static void *operator new(size_t n) { made++; return ::operator new(n + 8); }
  static void operator delete(void *p) { gone++; ::operator delete(p); }
  static void *operator new[](size_t n) { made += 100; return malloc(n); }
  static void operator delete[](void *p) { gone += 100; free(p); }
};
int Own::made, Own::gone;

struct Node {
  Node *l, *r;
  int k;
  Node(int k) : l(0), r(0), k(k) {}
  ~Node();
};

struct alignas(64) Cache {
  char c[100];
  std::string s;
};
struct alignas(4096) Page {
  char c[10];
};

static void insert(Node *&n, int k);

static int handled;
static void handler() {
  if (++handled >= 3)
    std::set_new_handler(0);
}
static void throwing_handler() {
  handled++;
  throw std::bad_alloc();
}
static volatile size_t huge = ~(size_t)0 / 2 - 1000;

struct Arg {
  unsigned a, b, c;
};

/* ---- the library; nothing here is seen by the headers ---------------- */

static void containers(unsigned a, unsigned b, unsigned c) {
  unsigned n = b % 200;
  rnd_state = c;
  switch (a % 14) {
  case 0: {
    std::vector<std::string> v;
    for (unsigned i = 0; i < n; i++)
      v.push_back(std::string(rnd() % 60, 'a' + i % 26));
    std::sort(v.begin(), v.end());
    v.erase(std::unique(v.begin(), v.end()), v.end());
    if (v.size() > 3)
      v.insert(v.begin() + 2, v[1]);
    v.shrink_to_fit();
    out("vector %d %lx\n", (int)v.size(), v.empty() ? 0 : hash(v.back()));
    break;
  }
  case 1: {
    std::map<int, std::string> m;
    for (unsigned i = 0; i < n; i++) {
      int k = rnd() % 50;
      if (i % 4 == 3)
        m.erase(k);
      else
        m[k] += "some more of the text;";
    }
    ul h = 0;
    for (auto &e : m)
      h = h * 31 + e.first + hash(e.second);
    out("map %d %lx\n", (int)m.size(), h);
    break;
  }
  case 2: {
    std::unordered_map<std::string, int> m;
    std::unordered_multiset<int> s;
    for (unsigned i = 0; i < n; i++) {
      m[std::to_string(rnd() % 40) + " as a key that is long enough"]++;
      s.insert(rnd() % 10);
    }
    m.rehash(500);
    int t = 0;
    for (auto &e : m)
      t += e.second;
    out("unordered %d %d %d\n", (int)m.size(), t, (int)s.count(3));
    break;
  }
  case 3: {
    std::deque<long> d;
    for (unsigned i = 0; i < n * 4; i++) {
      if (rnd() % 3)
        d.push_back(i);
      else
        d.push_front(i);
      if (rnd() % 5 == 0)
        d.pop_front();
    }
    out("deque %d %ld\n", (int)d.size(), std::accumulate(d.begin(), d.end(), 0L));
    break;
  }
  case 4: {
    std::list<std::string> x, y;
    for (unsigned i = 0; i < n; i++)
      (rnd() % 2 ? x : y).push_back(std::to_string(rnd() % 1000));
    x.sort();
    y.sort();
    x.merge(y);
    x.remove("7");
    out("list %d %d\n", (int)x.size(), (int)y.size());
    break;
  }
  case 5: {
    std::vector<std::pair<int, int> > v;
    for (unsigned i = 0; i < n * 3; i++)
      v.push_back(std::make_pair((int)(rnd() % 20), (int)i));
    std::stable_sort(v.begin(), v.end(), [](const std::pair<int, int> &x, const std::pair<int, int> &y) { return x.first < y.first; });
    std::inplace_merge(v.begin(), v.begin() + v.size() / 2, v.end());
    std::rotate(v.begin(), v.begin() + v.size() / 3, v.end());
    std::stable_partition(v.begin(), v.end(), [](const std::pair<int, int> &x) { return x.first & 1; });
    out("stable %lx\n", v.empty() ? 0 : hash(&v[0], v.size() * sizeof v[0]));
    break;
  }
  case 6: {
    std::ostringstream o;
    for (unsigned i = 0; i < n; i++)
      o << i << ' ' << std::hex << i << std::dec << ' ' << 0.5 * i << '\n';
    std::istringstream in(o.str());
    std::string w;
    int k = 0;
    while (in >> w)
      k++;
    out("stream %d %lx\n", k, hash(o.str()));
    break;
  }
  case 7: {
    std::string s = "begin";
    for (unsigned i = 0; i < n; i++) {
      s.insert(rnd() % (s.size() + 1), std::string(rnd() % 20, 'x'));
      if (s.size() > 100)
        s.erase(rnd() % 50, 60);
      s += std::string(s, 0, 5);
      s.reserve(s.size() * 2);
    }
    std::string t = std::move(s), u = t.substr(t.size() / 2);
    out("string %d %lx %d\n", (int)t.size(), hash(u), t.find("begin") == 0);
    break;
  }
  case 8: {
    std::shared_ptr<Base> p(new Derived(n)), q = std::make_shared<Derived>(3);
    std::weak_ptr<Base> w = p;
    std::unique_ptr<int[]> z(new int[n + 1]);
    z[n] = 5;
    std::vector<std::shared_ptr<Base> > v(n, q);
    out("pointers %s %ld %d", p->name().c_str(), q.use_count(), z[n]);
    p.reset();
    out(" %d\n", w.expired());
    break;
  }
  case 9: {
    std::function<int(int)> f = [n, c, s = std::string("a captured text of some length")](int x) { return (int)(x + n + c + s.size()); };
    std::vector<std::function<int(int)> > v(5, f);
    int t = 0;
    for (auto &g : v)
      t += g(2);
    out("function %d\n", t);
    break;
  }
  case 10: {
    std::priority_queue<int> q;
    std::set<std::string> s;
    std::multimap<int, int> mm;
    for (unsigned i = 0; i < n; i++) {
      q.push(rnd() % 1000);
      s.insert(std::string(1 + rnd() % 30, 'z'));
      mm.insert(std::make_pair(rnd() % 9, i));
    }
    out("others %d %d %d\n", q.empty() ? -1 : q.top(), (int)s.size(), (int)mm.count(4));
    break;
  }
  case 11: {
    std::valarray<double> v(1.5, n + 1);
    v *= 2.0;
    std::vector<bool> bits(n * 10 + 1);
    for (unsigned i = 0; i < n * 10; i += 3)
      bits[i] = true;
    bits.resize(n * 20 + 1);
    out("valarray %g %d\n", v.sum(), (int)std::count(bits.begin(), bits.end(), true));
    break;
  }
  case 12: {
    std::pmr::monotonic_buffer_resource r(64);
    std::pmr::unsynchronized_pool_resource pool;
    std::pmr::vector<std::pmr::string> v(&r);
    std::pmr::map<int, int> m(&pool);
    for (unsigned i = 0; i < n; i++) {
      v.emplace_back("a text that does not fit into the string");
      m[rnd() % 60] = i;
    }
    out("pmr %d %d\n", (int)v.size(), (int)m.size());
    break;
  }
  default: {
    std::any x = std::string("held by any, on the heap as it is long");
    std::variant<int, std::string, std::vector<int> > v = std::vector<int>(n, 3);
    std::optional<std::string> o = std::any_cast<std::string>(x);
    x = std::vector<int>(4);
    out("any %d %d %s\n", (int)v.index(), (int)std::get<2>(v).size(), o->c_str());
    v = std::string("x");
  }
  }
}

static void language(unsigned a, unsigned b, unsigned c) {
  switch (a % 16) {
  case 0:
    try {
      std::vector<int> v(b % 10);
      v.at(10 + b % 5) = 1;
    } catch (std::exception &e) {
      out("caught %s\n", e.what());
    }
    break;
  case 1: {
    std::exception_ptr p;
    try {
      try {
        throw std::runtime_error(std::string(b % 900, 'e'));
      } catch (...) {
        std::throw_with_nested(std::logic_error("outer"));
      }
    } catch (...) {
      p = std::current_exception();
    }
    try {
      std::rethrow_exception(p);
    } catch (std::exception &e) {
      out("nested %s", e.what());
      try {
        std::rethrow_if_nested(e);
      } catch (std::exception &f) {
        out(" %d\n", (int)strlen(f.what()));
      }
    }
    break;
  }
  case 2: {
    int n = 0;
    Noisy::live = 0;
    Noisy::throw_at = b % 7;
    try {
      Noisy *p = new Noisy[5];
      n = 1;
      delete[] p;
    } catch (std::runtime_error &e) {
      out("%s ", e.what());
    }
    Noisy::throw_at = -1;
    out("arrays %d %d\n", n, Noisy::live);
    break;
  }
  case 3:
    /* more than there is */
    try {
      char *p = new char[huge];
      out("got it %p\n", p);
    } catch (std::bad_alloc &e) {
      out("bad_alloc %s", e.what());
    }
    {
      char *p = new (std::nothrow) char[huge];
      out(" %d", p == 0);
      p = (char *)::operator new(huge, std::nothrow);
      out(" %d", p == 0);
      try {
        std::vector<long> v;
        v.reserve(v.max_size() + (b & 1));
        out(" reserved\n");
      } catch (std::bad_alloc &) {
        out(" bad_alloc\n");
      } catch (std::length_error &) {
        out(" length_error\n");
      }
    }
    break;
  case 4: {
    handled = 0;
    std::set_new_handler(handler);
    try {
      char *p = new char[huge];
      out("got it %p\n", p);
    } catch (std::bad_alloc &) {
      out("handler %d %d\n", handled, std::get_new_handler() == 0);
    }
    std::set_new_handler(throwing_handler);
    char *p = new (std::nothrow) char[huge];
    out("handler %d %d %d\n", handled, p == 0, std::get_new_handler() == throwing_handler);
    std::set_new_handler(0);
    break;
  }
  case 5: {
    Own *p = new Own, *q = new Own[3];
    memset(p, 1, sizeof *p);
    memset((void *)q, 2, 3 * sizeof *q);
    delete p;
    delete[] q;
    out("own %d %d\n", Own::made, Own::gone);
    break;
  }
  case 6: {
    Cache *p = new Cache, *q = new Cache[1 + b % 5];
    Page *g = new Page;
    p->s = "a text long enough to be put on the heap";
    q[b % 5 % (1 + b % 5)].s = p->s;
    out("aligned %d %d %d", (int)((uintptr_t)p % 64), (int)((uintptr_t)q % 64), (int)((uintptr_t)g % 4096));
    delete p;
    delete[] q;
    delete g;
    std::shared_ptr<Cache> s = std::make_shared<Cache>();
    std::vector<Cache> v(1 + b % 7);
    out(" %d %d\n", (int)((uintptr_t)s.get() % 64), (int)((uintptr_t)&v[0] % 64));
    break;
  }
  case 7: {
    void *m = malloc(sizeof(Noisy) + 16);
    Noisy *p = new (m) Noisy;
    out("placed %s\n", p->s.c_str());
    p->~Noisy();
    free(m);
    break;
  }
  case 8: {
    void *p = ::operator new(b % 5000), *q = ::operator new[](c % 5000, std::nothrow);
    void *r = ::operator new(1 + b % 99, std::align_val_t(1 << (4 + c % 9)));
    void *z = ::operator new(0), *y = ::operator new[](0);
    out("operators %d %d %d %d\n", p && q, (int)((uintptr_t)r % (1 << (4 + c % 9))), z != 0, y != 0);
    ::operator delete(p, (size_t)(b % 5000));
    ::operator delete[](q, std::nothrow);
    ::operator delete(r, std::align_val_t(1 << (4 + c % 9)));
    ::operator delete(z);
    ::operator delete[](y);
    ::operator delete((void *)0);
    break;
  }
  case 9: {
    std::regex re("([a-z]+)([0-9]*)", std::regex::icase);
    std::string t = "abc123 def x9 ";
    t += std::to_string(b);
    std::string r = std::regex_replace(t, re, "<$2$1>");
    out("regex %s %d\n", r.c_str(), (int)std::distance(std::sregex_iterator(t.begin(), t.end(), re), std::sregex_iterator()));
    break;
  }
  case 10: {
    std::locale l(std::locale::classic(), new std::ctype<char>);
    std::ostringstream o;
    o.imbue(l);
    o << 1234567.25 << " " << std::use_facet<std::ctype<char> >(l).toupper('q');
    out("locale %s\n", o.str().c_str());
    break;
  }
  case 11: {
    namespace fs = std::filesystem;
    fs::create_directories("pp/sub/deeper");
    std::ofstream("pp/f") << "contents of the file " << b;
    int n = 0;
    for (auto &e : fs::recursive_directory_iterator("pp"))
      n += e.is_directory() ? 10 : 1;
    std::ifstream in("pp/f");
    std::string s;
    std::getline(in, s);
    out("files %d %s %d\n", n, s.c_str(), (int)fs::remove_all("pp"));
    break;
  }
  case 12: {
    std::string s = typeid(std::map<std::string, std::vector<int> >).name();
    Base *x = new Derived(3);
    Derived *d = dynamic_cast<Derived *>(x);
    out("types %d %s %d\n", (int)s.size(), typeid(*x).name(), d != 0);
    delete x;
    break;
  }
  case 13:
    global_map[std::to_string(b % 20) + " in the global map, as a long key"].push_back(c);
    global_text.insert(5, "+");
    global_ptr = std::make_shared<int>(b);
    break;
  case 14: {
    static std::vector<std::string> *st = new std::vector<std::string>;
    static std::string local = "constructed at the first use of the function";
    st->push_back(local);
    local += "!";
    out("static %d\n", (int)st->size());
    break;
  }
  default:
    std::cout << "through cout " << b << " " << std::string(c % 100, 'c') << std::endl;
    std::cerr << "through cerr " << b << std::endl;
  }
}

static thread_local std::vector<std::string> tl_vec;
struct TL {
  char *p;
  TL() : p(new char[33]) {}
  ~TL() { delete[] p; }
};
static thread_local TL tl;

static void threads(unsigned b, unsigned c) {
  std::vector<std::thread> v;
  std::mutex m;
  std::map<int, std::string> res;
  for (unsigned i = 0; i < 1 + b % 5; i++)
    v.emplace_back([&, i] {
      std::string s;
      for (unsigned k = 0; k < 5 + c % 20; k++) {
        s += std::to_string(k * i) + ",";
        tl_vec.push_back(s);
        delete new Derived(k);
      }
      tl.p[0] = 1;
      std::lock_guard<std::mutex> g(m);
      res[i] = s;
    });
  for (auto &t : v)
    t.join();
  for (auto &e : res)
    out("%d %lx ", e.first, hash(e.second));
  std::future<std::string> f = std::async(c & 1 ? std::launch::async : std::launch::deferred, [b] { return std::string(b % 400, 'f'); });
  std::promise<int> p;
  std::thread t([&p] {
    try {
      throw std::runtime_error("from the thread");
    } catch (...) {
      p.set_exception(std::current_exception());
    }
  });
  try {
    p.get_future().get();
  } catch (std::exception &e) {
    out("%s ", e.what());
  }
  t.join();
  out("threads %d\n", (int)f.get().size());
}

/* ---- as an application with the headers is written -------------------- */
#ifdef WITH_HEADER
#include "dumapp.h"
#endif

Node::~Node() {
  delete l;
  delete r;
}
static void insert(Node *&n, int k) {
  if (!n)
    n = new Node(k);
  else if (k < n->k)
    insert(n->l, k);
  else if (k > n->k)
    insert(n->r, k);
}
static int sum(Node *n) { return n ? n->k + 3 * sum(n->l) + 5 * sum(n->r) : 0; }

struct Poly {
  virtual ~Poly() {}
  int x;
};
struct PolyD : Poly {
  char *buf;
  Poly *other;
  PolyD(int n) : buf(new char[n]), other(0) { memset(buf, 'p', n); }
  ~PolyD() {
    delete[] buf;
    delete other;
  }
};

static void app(unsigned a, unsigned b, unsigned c) {
  rnd_state = c;
  switch (a % 8) {
  case 0: {
    Node *root = 0;
    for (unsigned i = 0; i < b % 60; i++)
      insert(root, rnd() % 100);
    out("tree %d\n", sum(root));
    delete root;
    break;
  }
  case 1: {
    PolyD *p = new PolyD(1 + b % 3000);
    p->other = new PolyD(1 + c % 30);
    Poly *q = p;
    out("poly %c\n", p->buf[b % 3000]);
    delete q;
    break;
  }
  case 2: {
    long *v = new long[1 + b % 1000];
    int *e = new int(5), *z = 0;
    for (unsigned i = 0; i < 1 + b % 1000; i++)
      v[i] = i * c;
    out("array %lx %d\n", hash(v, (1 + b % 1000) * sizeof *v), *e);
    if (c & 1)
      delete e;
    else {
      delete e;
      e = 0;
    }
    delete[] v;
    delete z;
    break;
  }
  case 3: {
    int n = 0;
    Noisy::live = 0;
    Noisy::throw_at = b % 6;
    try {
      Noisy *p = new Noisy[4];
      n = 1;
      delete[] p;
      Noisy *q = new Noisy;
      delete q;
    } catch (std::runtime_error &e) {
      out("%s ", e.what());
    }
    Noisy::throw_at = -1;
    out("arrays %d %d\n", n, Noisy::live);
    break;
  }
  case 4: {
    char *s = (char *)malloc(1 + b % 90), *t;
    memset(s, 's', b % 90);
    s[b % 90] = 0;
    t = strdup(s);
    t = (char *)realloc(t, 200);
    strcat(t, "!");
    strncat(t, "more of it", c % 12);
    memmove(t + 1, t, strlen(t) + 1);
    out("text %s\n", t);
    free(s);
    free(t);
    void *m = calloc(b % 50 + 1, c % 50 + 1);
    out("zero %d\n", ((char *)m)[(b % 50 + 1) * (c % 50 + 1) - 1]);
    free(m);
    break;
  }
  case 5: {
    std::vector<Derived *> v;
    std::unique_ptr<Base> u(new Derived(4));
    for (unsigned i = 0; i < b % 30; i++)
      v.push_back(new Derived(i));
    ul t = 0;
    for (unsigned i = 0; i < v.size(); i++) {
      t += v[i]->v.size();
      delete v[i];
    }
    out("derived %lu %s\n", t, u->name().c_str());
    break;
  }
  case 6: {
    Noisy::live = 0;
    Noisy *p = new Noisy, *q = new Noisy[1 + b % 9];
    out("noisy %s %d\n", q[b % 9 % (1 + b % 9)].s.c_str(), Noisy::live);
    for (int i = 0; i < 2; i++)
      if (i)
        delete p;
      else
        delete[] q;
    out("noisy %d\n", Noisy::live);
    break;
  }
  default: {
    std::shared_ptr<PolyD> p(new PolyD(20), [](PolyD *x) { delete x; });
    char **rows = new char *[1 + b % 20];
    for (unsigned i = 0; i < 1 + b % 20; i++) {
      rows[i] = new char[1 + c % 300];
      memset(rows[i], i, 1 + c % 300);
    }
    ul t = 0;
    for (unsigned i = 0; i < 1 + b % 20; i++) {
      t += rows[i][c % 300];
      delete[] rows[i];
    }
    delete[] rows;
    out("rows %lu\n", t);
  }
  }
}

static void ending(unsigned a, unsigned b, unsigned c) {
  switch (a % 9) {
  case 1: exit(b % 90);
  case 2: _exit(b % 90);
  case 3: throw std::runtime_error("nobody catches this");
  case 4: std::terminate();
  case 5: {
    std::thread([b] { exit(b % 90); }).join();
  }
  case 6: {
    std::thread([] { usleep(10000); out("detached %d\n", (int)tl_vec.size()); }).detach();
    pthread_exit(0);
  }
  case 7: std::quick_exit(b % 90);
  default: return;
  }
}

int main(int argc, char **argv) {
  FILE *f;
  char line[100];
#if defined(WITH_HEADER) && defined(CALL_INIT)
  duma_init();
#endif
  if (argc < 2 || !(f = fopen(argv[1], "r")))
    return 97;
  while (fgets(line, sizeof line, f)) {
    char op[8];
    unsigned a, b, c;
    if (sscanf(line, "%7s %u %u %u", op, &a, &b, &c) != 4)
      continue;
    out("-%s\n", op);
    switch (op[0]) {
    case 'C': containers(a, b, c); break;
    case 'L': language(a, b, c); break;
    case 'A': app(a, b, c); break;
    case 'T': threads(b, c); break;
    case 'O':
      std::thread([&] { if (a & 1) containers(b, c, a); else language(b, c, a); }).join();
      break;
    case 'F': {
      int st;
      pid_t p = fork();
      if (!p) {
        containers(b, c, a);
        app(c, b, a);
        if (a & 1)
          exit(5);
        _exit(6);
      }
      if (p > 0 && waitpid(p, &st, 0) == p)
        out("child %x\n", st);
      break;
    }
    case 'Q':
      fclose(f);
      ending(a, b, c);
      return b % 90;
    }
  }
  fclose(f);
  return 0;
}
