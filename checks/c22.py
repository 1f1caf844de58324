"""Programs that use the macros of the headers are generated, compiled with the
debugger and with its off-switch, and run once with every unit in order and once
per unit with that unit's assertion, index or return address bad."""
import mmap
from vlib.engine import Check
from vlib.hist import acts, pick, I16, st
from vlib import build
from vlib.prog import Work

FILES = ['m.c', 'src/my file.cc', 'odd%s%dname.c', '/abs/path/x.h', 'q' * 90 + '.c']
PRELUDE = r'''
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <unistd.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <malloc.h>
@EARLY@
static void put(const char *s, long v) {
  char b[120];
  int n = snprintf(b, sizeof b, "%s %ld\n", s, v);
  write(1, b, n);
}
static int which = -1;
static long pick_l(int unit, long good, long bad) { return which == unit ? bad : good; }
#define LIM 5
#define KEEP(x) (x)
struct S { int a; long b; char c[5]; };
static int calls;
static long called(long x) { calls++; return x; }
/* evaluated more often than once, or not at all? */
static int nev, nexp, cev, cexp;
#define E(x) (nev++, (x))
#define C(x) (cev++, (x))
static void *fixed_target(void) { return (void *)&called; }
@LATE@
'''

# -- assertions: expressions over these, true or false depending on g -------
DECL = ('long g = pick_l(%d, 1, 0); int a = (int)(g ? %d : 0), i = %d; unsigned u = g ? %du : 0u; double d = g ? 0.25 : 0.0; '
        'const char *p = g ? "text" : 0; long long w = g ? 4294967296LL : 0; struct S t; char ch = g ? \'x\' : 0; long n = 0; '
        'int *q = g ? &i : 0; memset(&t, 0, sizeof t); t.a = a; t.b = g ? 1L << 40 : 0;')
# each is true when g is 1 and false when g is 0
ATOMS = ['g', 'a', 'u', 'd', 'p', 'w', 'ch', 'q', 'a != 0', '0 != a', 'p != 0', '!(p == 0)', '!!a', 'w >> 32', 'd > 0.1', 't.a',
         '(&t)->b', 'g == 1', 'a > 0 && p', 'p && p[0] == \'t\'', 'g && strcmp(p, "text") == 0', 'a || w', 'a | u', 'g ? 1 : 0',
         'g ? p : 0', 'u % 7 != 0 || g', 'g && "always"', 'g && *"%s%n%d" == \'%\'', '(a, g)', 'a & -1', 'g + 0L', '-g', '~(g - 1) + 1 ? 0 : 1',
         'g && p[3] == "text"[3]', 'KEEP(g)', 'g * LIM >= LIM', 'sizeof(t) > 4 && a', 'g && p[strlen(p)] == \'\\0\'',
         'q && *q == i', 'g && p[0] != \'\\\\\'', 'g && "a\\"b"[1] == \'"\'', 'called(g)', 'called(g) && p', '(n++, g)', 'n++ >= 0 && g',
         'g && ++n', 'a /* note */ != 0', 'g && i < LIM + 1000', 'd * 2', 'd', 'w', '(void *)p', '(char)g', '(short)g || p',
         'g == 1L && i >= 0', '((((((g))))))']


def stringified(e):
    """what # makes of it: comments and surplus blanks go"""
    return e.replace(' /* note */ ', ' ').replace(' /* note */', '')


def expr(s1, s2):
    e = ATOMS[s1 % len(ATOMS)]
    k = s2 % 7
    f = ATOMS[(s2 >> 3) % len(ATOMS)]
    if k == 1:
        e = '(%s) && (%s)' % (e, f)
    elif k == 2:
        e = '(%s) || (%s)' % (e, f)
    elif k == 3:
        e = '!(!(%s))' % e
    elif k == 4:
        e = '(%s) ? (%s) != 0 : 0' % (e, f)
    elif k == 5:
        e = ' && '.join('(%s)' % ATOMS[(s2 + 7 * j) % len(ATOMS)] for j in range(1 + (s1 >> 6) % 40))
    return e


class Unit:
    bad = True           # can it be made to fail?

    def __init__(self, k, s, c):
        self.k, self.s, self.c = k, s, c
        self.globals, self.body, self.text = [], [], None
        # where a failure has to be reported
        self.file, self.line = FILES[s[2] % len(FILES)], 1 + s[2] * 13 % 30000
        self.make()

    def mark(self):
        return '\n#line %d "%s"\n' % (self.line, self.file)

    def source(self):
        return '\n'.join(self.globals) + '\nstatic void unit%d(void) {\n%s\n}\n' % (self.k, '\n'.join(self.body))


class Assert(Unit):
    name = 'assert'

    def make(self):
        s1, s2, s3 = self.s
        e = expr(s1, s2)
        self.text = stringified(e)
        B = self.body
        decl = DECL % (self.k, 1 + s3 % 100, s3 % 1000, 1 + s2 % 6)
        B.append('int want; long cnt; int c0; { %s c0 = calls; want = (%s) ? 1 : 0; cnt = n + 1000 * (calls - c0); }' % (decl, e))
        B.append('put("want%d", want);' % self.k)
        B.append('{ %s long r = 0; c0 = calls;' % decl)
        form = s3 % 6
        if form == 0:
            B.append(self.mark() + 'DUMA_ASSERT(%s);' % e)
        elif form == 1:
            B.append(self.mark() + 'if (i >= 0) DUMA_ASSERT(%s); else r = 7;' % e)
        elif form == 2:
            B.append(self.mark() + 'r = (DUMA_ASSERT(%s), 3L);' % e)
        elif form == 3:
            B.append(self.mark() + 'for (r = 0; r < 1; r++, DUMA_ASSERT(%s)) ;' % e)
        elif form == 4:
            B.append(self.mark() + 'switch (1) { case 1: DUMA_ASSERT(%s); break; default: r = 9; }' % e)
        else:
            B.append(self.mark() + 'do DUMA_ASSERT(%s); while (0);' % e)
        B.append('put("cont%d", r);' % self.k)
        # evaluated exactly once, and not at all with the off-switch
        B.append('put("eval%d", n + 1000 * (calls - c0) == cnt); }' % self.k)

    def judge(self, mode, out, bad):
        w = 0 if bad else 1
        if ('want%d %d' % (self.k, w)) not in out:
            return 'generator error: the expression is not %d' % w
        return None


TYPES = ['int', 'char', 'unsigned char', 'short', 'long', 'double', 'long long', 'struct S', 'float', 'unsigned', 'const char *']


class Array(Unit):
    name = 'array'

    def make(self):
        s1, s2, s3 = self.s
        k, B = self.k, self.body
        ty = TYPES[s1 % len(TYPES)]
        n = (1, 2, 3, 7, 20, 127, 128, 255, 256, 257, 1000)[(s1 >> 4) % 11]
        good = (0, n - 1, s2 % n)[s3 % 3]
        bads = [n, n + 1, -1, -n, n + 1000, 1 << 31, 1 << 32, (1 << 32) + good, 1 << 62, -(1 << 63), (1 << 63) - 1, -2, (1 << 33) + good,
                2 * n, 65536 + good, 256 + good + n, -(1 << 31), -(1 << 32), -(1 << 32) + good]
        bad = bads[(s2 >> 4) % len(bads)]
        idxt = ['long', 'long', 'int', 'unsigned', 'unsigned char', 'short', 'unsigned long', 'signed char'][(s3 >> 2) % 8]
        rng = {'int': (-1 << 31, (1 << 31) - 1), 'unsigned': (0, (1 << 32) - 1), 'unsigned char': (0, 255), 'short': (-32768, 32767),
               'signed char': (-128, 127)}.get(idxt, (-1 << 63, (1 << 63) - 1))
        if not rng[0] <= bad <= rng[1] or not rng[0] <= good <= rng[1]:
            idxt = 'long'
        arr = 'arr%d' % k
        val = 'x' if ty != 'struct S' else 'x.a'
        fld = '' if ty != 'struct S' else '.a'
        scope = (s3 >> 5) % 5
        G = self.globals
        set_ = '(%s)(%%s + 1)' % ty if ty != 'const char *' else '"abcdefgh" + (%s) %% 8'
        if ty == 'struct S':
            set_ = '(int)(%s + 1)'
        low = '-9223372036854775807L - 1'
        B.append('long j, sum = 0; %s ix = (%s)pick_l(%d, %dL, %s); long r;' % (
            idxt, idxt, k, good, '%dL' % bad if bad != -(1 << 63) else low))
        if self.c['lang'].startswith('c') and '89' in self.c['lang']:
            pass
        if scope == 0:
            G.append('CA_DEFINE(%s, %s, %d);' % (ty, arr, n))
        elif scope == 1:
            B.insert(0, 'CA_DEFINE(%s, %s, %d);' % (ty, arr, n))
        elif scope == 2:
            G.append('static %s %s[%d];\nCA_DECLARE(%s, sizeof(%s) / sizeof(%s[0]));' % (ty, arr, n, arr, arr, arr))
        elif scope == 3:
            B.insert(0, 'static %s %s[%d]; CA_DECLARE(%s, %d);' % (ty, arr, n, arr, n))
        else:
            # a pointer parameter of another function
            G.append('static %s back%d[%d];' % (ty, k, n))
        acc = (s3 >> 8) % 9
        ie = ['ix', '(ix)', 'ix + 0', 'called(ix)', 'calls++, ix', 'ix < 0 ? ix : ix', 'ix++', 'ix--'][(s2 >> 9) % 8]
        ref = 'CA_REF(%s, %s)' % (arr, ie if ie != 'calls++, ix' else '(calls++, ix)')
        self.text = '(%s_checkedidx = (%s)) < %s_checkedsize' % (arr, ie if ie != 'calls++, ix' else '(calls++, ix)', arr)
        m = self.mark()
        fill = 'for (j = 0; j < %d; j++) %s[j]%s = %s;' % (n, arr, fld, set_ % 'j')
        toL = (lambda e: '(long)(%s)' % e) if ty != 'const char *' else (lambda e: '(long)*(%s)' % e)
        if acc in (0, 1):
            use = 'r = %s;' % toL(ref + fld)
        elif acc == 2:
            use = '%s%s = %s; r = 1;' % (ref, fld, set_ % '40')
        elif acc == 3:
            use = 'r = (char *)&%s - (char *)%s;' % (ref, arr)
        elif acc == 4:
            use = 'if (%s%s == %s%s) r = 2; else r = 3;' % (ref, fld, arr + '[%d]' % good, fld)
        elif acc == 5 and ty not in ('const char *',):
            use = '%s%s += %s; r = 5;' % (ref, fld, '(%s)2' % (ty if ty != 'struct S' else 'int'))
        elif acc == 6 and ty not in ('const char *',):
            use = 'r = (long)%s%s++;' % (ref, fld)
        elif acc == 7:
            use = '{ %s x; x = %s; r = %s; }' % (ty, ref, toL(val))
        else:
            G.append('static int nest%d[4] = {1, 0, 3, 2}; CA_DECLARE(nest%d, 4);' % (k, k))
            use = 'r = %s + (long)CA_REF(nest%d, CA_REF(nest%d, 2) - 3);' % (toL(ref + fld), k, k)
            use = use.replace('CA_REF(nest%d, CA_REF(nest%d, 2) - 3)' % (k, k), 'CA_REF(nest%d, 3)' % k)
        rest = ['%s%s' % (m, use), 'put("r%d", r);' % k, 'put("calls%d", calls); put("ix%d", (long)ix);' % (k, k),
                'for (j = 0; j < %d; j++) sum = sum * 31 + %s;' % (n, toL('%s[j]%s' % (arr, fld))), 'put("sum%d", sum);' % k]
        if scope == 4:
            G.append('static void work%d(%s *%s, %s ix) { long j, sum = 0, r; CA_DECLARE(%s, %d);\n calls = 0; %s put("at%d", 0); %s\n}' % (
                k, ty, arr, idxt, arr, n, fill, k, '\n'.join(rest)))
            B.append('work%d(back%d, ix);' % (k, k))
        else:
            B.append('calls = 0; %s put("at%d", 0);' % (fill, k))
            B += rest

    def judge(self, mode, out, bad):
        return None


def roomy():
    try:
        mmap.mmap(-1, 1 << 35, flags=mmap.MAP_PRIVATE | 0x4000).close()
        return True
    except (OSError, ValueError, OverflowError):
        return False


class Big(Unit):
    """a checked array of more elements than 32 bits can count"""
    name = 'big'

    def make(self):
        s1, s2, s3 = self.s
        k, B = self.k, self.body
        n = ((1 << 32) + 1 + s2 % 5000, 1 << 33, (1 << 31) + s2 % 7, (1 << 32) + (1 << 31) + 3, (1 << 34) - 1)[s1 % 5]
        good = (n - 1, (1 << 32) + s2 % 100, 0, n - 1 - s2, n // 2)[(s1 >> 3) % 5]
        if good >= n:
            good = n - 1
        bads = [n, n + 1, -1, n + (1 << 32), 1 << 62, -(1 << 63), (1 << 63) - 1, -(1 << 32) + 3, -n, n + (1 << 35)]
        bad = bads[(s2 >> 4) % len(bads)]
        ty = ('char', 'unsigned char', 'short')[s3 % 3]
        arr = 'big%d' % k
        B.append('%s *%s = (%s *)mmap(0, %dUL, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);' % (
            ty, arr, ty, n * (2 if ty == 'short' else 1)))
        B.append('%s ix = pick_l(%d, %dL, %s); long r; CA_DECLARE(%s, %dUL);' % (
            ('long', 'unsigned long', 'long long')[s3 // 3 % 3], k, good, '%dL' % bad if bad != -(1 << 63) else '-9223372036854775807L - 1', arr, n))
        B.append('if (%s == MAP_FAILED) { put("nomem", 0); exit(77); }' % arr)
        B.append('%s[%dL] = %d; put("at%d", 0);' % (arr, good, 1 + s3 % 100, k))
        ref = 'CA_REF(%s, ix)' % arr
        B.append(self.mark() + ('r = %s;', '%s += 2; r = 3;', 'r = &%s - %s;' % ('%s', arr), '%s = 9; r = 8;')[(s3 >> 6) % 4] % ref)
        B.append('put("r%d", r); put("el%d", %s[%dL]); put("els%d", %s[0] + 10 * %s[%d]); munmap(%s, %dUL);' % (
            k, k, arr, good, k, arr, arr, n - 1, arr, n))

    def judge(self, mode, out, bad):
        return None


class Ret(Unit):
    name = 'return'

    def make(self):
        s1, s2, s3 = self.s
        k, B, G = self.k, self.body, self.globals
        cpp = self.c['lang'].startswith('c++')
        # the stored address can only be changed behind the compiler's back
        self.bad = self.c['opt'] == '-O0'
        how = ['(void *)((char *)f[1] + %d)' % (1 + s3 % 64), '(void *)0', 'fixed_target()', '(void *)f', '(void *)((char *)f[1] - 1)'][s3 % 5]
        hit = 'if (which == %d && (%%s)) { void **f = (void **)__builtin_frame_address(0); f[1] = %s; }' % (k, how)
        if self.c.get('other'):
            # a compiler that does not tell the return address: words beside it are watched
            self.bad = True
            hit = '\n#ifndef DUMA_NO_DUMA\nif (which == %d && (%%s)) { volatile int *q = aiDUMA_PROT; q[%d] %s; }\n#endif\n' % (
                k, s3 % 4, ['= 0', '^= 1', '^= 1 << 31', '= -1', '+= 256', '= q[%d]' % ((s3 + 1) % 4), '^= 1 << 16'][(s3 >> 2) % 7])
        m = self.mark()
        form = s1 % 9
        self.lines = None
        n = s2 % 7
        fn = 'fn%d' % k
        if form == 0:
            G.append('static int %s(int x) {\nDUMA_FN_PROT_START\nint y = x * 2;\n%s\n%sDUMA_FN_PROT_RET(y + 1);\nDUMA_FN_PROT_END\n}' % (fn, hit % '1', m))
            B.append('put("fn%d", %s(%d));' % (k, fn, n))
        elif form == 1:
            G.append('static void %s(int *x) {\nDUMA_FN_PROT_START\n*x += 5;\n%s%sDUMA_FN_PROT_END\n}' % (fn, hit % '1', m))
            B.append('{ int v = %d; %s(&v); put("fn%d", v); }' % (n, fn, k))
        elif form == 2:
            G.append('static void %s(int *x) {\nDUMA_FN_PROT_START\nwhile (*x < 100) { *x += 3; if (*x > 20) { %s%sDUMA_FN_PROT_RET_VOID(); } }\nDUMA_FN_PROT_END\n}' % (
                fn, hit % '1', m))
            B.append('{ int v = %d; %s(&v); put("fn%d", v); }' % (n, fn, k))
        elif form == 3:
            # recursion: only one of the frames is changed
            G.append('static long %s(int d) {\nDUMA_FN_PROT_START\nlong r = 1;\nif (d > 0) r = d * %s(d - 1);\n%s\n%sDUMA_FN_PROT_RET(r);\nDUMA_FN_PROT_END\n}' % (
                fn, fn, hit % ('d == %d' % (s3 % (n + 1))), m))
            B.append('put("fn%d", %s(%d));' % (k, fn, n))
        elif form == 4:
            G.append('static struct S %s(int x) {\nDUMA_FN_PROT_START\nstruct S s;\nmemset(&s, 0, sizeof s); s.a = x;\nswitch (x) { case 1: s.b = 4; break; case 2: s.b = 5; }\n%s\n%sDUMA_FN_PROT_RET(s);\nDUMA_FN_PROT_END\n}' % (fn, hit % '1', m))
            B.append('{ struct S s = %s(%d); put("fn%d", s.a * 10 + s.b); }' % (fn, n, k))
        elif form == 5:
            G.append('static int %s(int x) {\nint r = 0;\nDUMA_FN_PROT_START\nint z;\nfor (z = 0; z < x; z++) r += z;\n%s%sDUMA_FN_PROT_END\nreturn r;\n}' % (fn, hit % '1', m))
            B.append('{ int (*fp)(int) = %s; put("fn%d", fp(%d)); }' % (fn, k, n))
        elif form == 6:
            G.append('static int %s(int x, ...) {\nDUMA_FN_PROT_START\nva_list l; int r;\nva_start(l, x); r = va_arg(l, int) + x; va_end(l);\n%s\nif (r < 0) DUMA_FN_PROT_RET(0); else\n%sDUMA_FN_PROT_RET((calls++, r));\nDUMA_FN_PROT_END\n}' % (fn, hit % '1', m))
            B.append('calls = 0; put("fn%d", %s(3, %d)); put("calls%d", calls);' % (k, fn, n, k))
        elif form == 7:
            # the expression is evaluated once
            G.append('static long %s(long x) {\nDUMA_FN_PROT_START\n%s\n%sDUMA_FN_PROT_RET(called(x));\nDUMA_FN_PROT_END\n}' % (fn, hit % '1', m))
            B.append('calls = 0; put("fn%d", %s(%d)); put("calls%d", calls);' % (k, fn, n, k))
        else:
            if cpp:
                G.append('struct D%d { int *p; D%d(int *q) : p(q) {} ~D%d() { *p += 100; } };\nstatic int %s(int *x) {\nDUMA_FN_PROT_START\nD%d d(x);\n%s\n%sDUMA_FN_PROT_RET(*x);\nDUMA_FN_PROT_END\n}' % (
                    k, k, k, fn, k, hit % '1', m))
                B.append('{ int v = %d; int r = %s(&v); put("fn%d", r); put("v%d", v); }' % (n, fn, k, k))
            else:
                G.append('static double %s(double x) {\nDUMA_FN_PROT_START\n%s\n%sDUMA_FN_PROT_RET(x / 2);\nDUMA_FN_PROT_END\n}' % (fn, hit % '1', m))
                B.append('put("fn%d", (long)(%s(%d) * 4));' % (k, fn, n))
        B.append('put("back%d", 1);' % k)

    def judge(self, mode, out, bad):
        return None


class Macros(Unit):
    name = 'macros'
    bad = False

    def make(self):
        s1, s2, s3 = self.s
        k, B = self.k, self.body
        cpp = self.c['lang'].startswith('c++')
        B.append('char *p; long r = 0; int c0 = calls;')
        ops = ['DUMA_newFrame();', 'DUMA_delFrame();', 'DUMA_SET_ALIGNMENT(8);', 'DUMA_SET_PROTECT_BELOW(0);', 'DUMA_SET_FILL(0x5A);',
               'DUMA_CHECKALL();', 'if (r) DUMA_CHECKALL(); else DUMA_newFrame();', 'DUMA_SET_ALIGNMENT(1 << 2);',
               'if (r == 0) DUMA_SET_FILL(-1); else r = 2;', 'for (; r > 3; DUMA_CHECKALL()) r--;', 'r += (DUMA_CHECKALL(), 2);']
        for j in range(1 + s1 % 5):
            B.append(ops[(s2 + j * (1 + s3 % 7)) % len(ops)])
        B.append('p = (char *)malloc(%d); memset(p, 3, %d); DUMA_CHECK(p); r += p[0]; p = (char *)realloc(p, %d); DUMA_CHECK((void *)p); r += p[%d]; free(p);' % (
            1 + s3 % 50, 1 + s3 % 50, 60 + s3 % 50, s3 % (1 + s3 % 50)))
        B.append('{ char b[40]; strcpy(b, "abc"); strcat(b, "def"); strncat(b, "ghi", 2); memcpy(b + 20, b, 9); r += (long)strlen(b + 20); '
                 'p = strdup(b); r += p[5]; free(p); p = (char *)calloc(3, 5); r += p[14]; free(p); }')
        if cpp:
            B.append('{ int *x = new int(7); long *y = new long[%d]; y[%d - 1] = 5; r += *x + y[%d - 1]; delete x; delete[] y; }' % ((1 + s2 % 30,) * 3))
            if s3 & 1:
                B.append('{ struct S *x = new S; x->a = 4; if (x) delete x; else r = 0; x = 0; delete x; if (x) delete x; else r += 40; }')
            if s3 & 2:
                # the headers may be left and entered again
                B.append('\n#include "noduma.h"\n{ void *m = malloc(16); int *z = new (std::nothrow) int(3); r += *z; delete z; int *v = new (m) int(9); r += *v; free(m); }\n' + plain(1, s1 ^ s3, s2) + '#include "dumapp.h"\n')
            if s3 & 4:
                B.append('{ long *y = 0; for (int z = 0; z < 3; z++) if (y) delete[] y, y = 0; else y = new long[4]; r += y == 0; delete[] y; }')
        elif s3 & 2:
            B.append('\n#include "noduma.h"\n{ void *m = malloc(16); memset(m, 1, 16); r += *(char *)m; free(m); }\n' + plain(0, s1 ^ s3, s2) + '#include "duma.h"\n')
        # every argument is evaluated once; those of the macros that check and set, with the debugger only
        n = 1 + s3 % 40
        once = ['p = (char *)malloc(E(@)); nexp = 1; memset(p, 1, @);', 'p = (char *)calloc(E(@), E(2)); nexp = 2;',
                'p = (char *)memalign(E(32), E(@)); nexp = 2; memset(p, 2, @);', 'p = (char *)valloc(E(@)); nexp = 1; memset(p, 3, @);',
                'p = (char *)aligned_alloc(E(64), E(64)); nexp = 2; memset(p, 4, 64);', 'p = (char *)strdup(E("text")); nexp = 1;',
                'nexp = posix_memalign((void **)E((void *)&p), E(16), E(@)); r += nexp; nexp = 3; memset(p, 5, @);']
        B.append('{ char b[64], a[64]; char *z[3]; int i = 0; memset(a, 0, 64); memset(b, 0, 64); (void)i;')
        for j in range(1 + s2 % 4):
            B.append('nev = cev = 0;' + once[(s1 + j * (1 + s2 % 5)) % len(once)].replace('@', str(n)))
            B.append(['', 'p = (char *)realloc(E(p), E(%d)); nexp += 2; p[%d] = 6;' % (n + 70, n + 69), 'r += malloc_usable_size(E(p)) >= 1; nexp++;',
                      'z[0] = z[2] = 0; z[1] = p; i = 1; DUMA_CHECK(C(z[i++])); cexp = 1;',
                      'DUMA_SET_ALIGNMENT(C(4)); DUMA_SET_PROTECT_BELOW(C(0)); DUMA_SET_FILL(C(7)); DUMA_CHECK(C(p)); cexp = 4;'][(s3 + j) % 5] +
                     'put("evc%d", cev == cexp); cexp = 0;' % k)
            B.append(['memcpy(E(a), E(p), E(1)); nexp += 3;', 'memmove(E(a), E(p), E(1)); nexp += 3;', 'strcpy(E(a), E("one")); nexp += 2;',
                      'strncpy(E(a), E("three"), E(4)); nexp += 3;', 'strcat(E(b), E("two")); nexp += 2;', 'strncat(E(b), E("four"), E(2)); nexp += 3;',
                      ''][(s2 + j * (1 + s1 % 6)) % 7] + 'r += a[0] + b[0] + p[0];')
            B.append('free(E(p)); put("evs%d", nev - nexp - 1);' % k)
        if cpp:
            B.append('{ int *x; long *y; nev = 0; x = new int(E(4)); y = new long[E(%d)]; y[0] = *x; r += y[0]; delete E(x); delete[] E(y); put("evs%d", nev - 4); }' % (n, k))
        B.append('}')
        B.append('DUMA_SET_FILL(255); DUMA_SET_ALIGNMENT(1); put("m%d", r);' % k)

    def judge(self, mode, out, bad):
        return None


# within noduma.h and the next inclusion of a header these are names like any other
NAMES = ['malloc', 'calloc', 'free', 'memalign', 'aligned_alloc', 'posix_memalign', 'realloc', 'valloc', 'malloc_usable_size', 'strdup',
         'memcpy', 'memmove', 'strcpy', 'strncpy', 'strcat', 'strncat', 'new_NOTHROW', 'NEW_ELEM', 'NEW_ARRAY', 'NEW_ELEM_NOTHROW',
         'NEW_ARRAY_NOTHROW', 'DEL_ELEM', 'DEL_ARRAY', 'DEL_ELEM_NOTHROW', 'DEL_ARRAY_NOTHROW', 'DUMA_newFrame', 'DUMA_delFrame',
         'DUMA_SET_ALIGNMENT', 'DUMA_SET_PROTECT_BELOW', 'DUMA_SET_FILL', 'DUMA_FN_PROT_START', 'DUMA_FN_PROT_END',
         'DUMA_FN_PROT_RET', 'DUMA_FN_PROT_RET_VOID', 'CA_DECLARE', 'CA_DEFINE', 'CA_REF']


def plain(cpp, s1, s2):
    ns = [n for j, n in enumerate(NAMES) if (s1 >> j % 16 & 1) or j == (s2 >> 1) % len(NAMES)]
    t = '{ struct { ' + ' '.join('long (*%s)(long);' % n for n in ns) + ' } f;\n'
    t += ''.join('f.%s = called; r += f.%s(%d);\n' % (n, n, j) for j, n in enumerate(ns))
    if cpp and s2 & 16:
        t += ('struct G { int a; static void *operator new(size_t n) { calls++; return ::operator new(n); } '
              'static void operator delete(void *p) { calls++; ::operator delete(p); } '
              'static void *operator new[](size_t n) { calls++; return ::operator new[](n); } '
              'static void operator delete[](void *p) { calls++; ::operator delete[](p); } };\n'
              '{ int c1 = calls; G *g = new G; G *h = new G[2]; g->a = 4; r += g->a; delete g; delete[] h; put("members", calls - c1); }\n')
    return t + '}\n'


KINDS = {'as': Assert, 'ca': Array, 'bi': Big if roomy() else Array, 'fp': Ret, 'ma': Macros}


class CHECK(Check):
    id = 'C22'
    rule = ('programs of up to ten units (assertions of random expressions in several statement forms, checked arrays of many '
            'element types, sizes (beyond 32 bits, too), scopes and index expressions, protected functions with every way of returning, frame, '
            'check, setting and allocation macros, with arguments that count their evaluations), in C and C++ of several standards, two compilers and optimisation '
            'levels, are run with every unit in order and once for each unit with a false expression, an index outside or '
            'a changed return address, and once more compiled with the off-switch and linked without the library. '
            'Non-trivial: at least one unit was made to fail.')
    quick, thorough = 640, 12000
    shrink_s = 60
    retries = 1
    needs = 1

    def setup(self):
        self.lib = build.libdir(build.GNU_OPTS)
        self.nbad = self.nunits = 0

    def strategy(self, tier):
        return st.fixed_dictionaries({
            'lang': pick('gnu17', 'gnu17', 'gnu89', 'c11', 'gnu99', 'c++98', 'c++11', 'c++17', 'gnu++20'),
            'cc': pick('gcc', 'gcc', 'clang'),
            'opt': pick('-O0', '-O0', '-O0', '-O1', '-O2'),
            'other': pick(0, 0, 0, 1),
            'units': acts('as:3 ca:3 fp:2 ma:2 bi:1', 1, 10 if tier == 'quick' else 14)})

    def fixed(self):
        # every way of returning with every marker word, and with every kind of change of the address
        return [{'lang': l, 'cc': ('gcc', 'clang')[i % 2], 'opt': ('-O0', '-O0', '-O2')[(i + o) % 3] if o else '-O0', 'other': o,
                 'units': [['fp', f, 3, i + 4 * f] for f in range(9)]}
                for l in ('gnu17', 'c++17') for o in (0, 1) for i in range(5 - o)]

    def source(self, c):
        cpp = c['lang'].startswith(('c++', 'gnu++'))
        us = [KINDS[u[0]](k, u[1:], dict(c, lang='c++' if cpp else c['lang'])) for k, u in enumerate(c['units'])]
        incl = '#include "dumapp.h"' if cpp else '#include "duma.h"'
        early = ''
        if c.get('other'):
            early = '#include <stddef.h>\n#include <stdint.h>\n#include <errno.h>\n#include <stdbool.h>' + '\n#include <new>\n#include <cstddef>' * cpp
            incl = '#undef __GNUC__\n' + incl
        src = PRELUDE.replace('@EARLY@', early).replace('@LATE@', incl)
        src += '\n'.join(u.source() for u in us)
        src += '\nint main(int argc, char **argv) {\n  if (argc > 1) which = atoi(argv[1]);\n'
        src += ''.join('  unit%d();\n' % k for k in range(len(us))) + '  put("end", 0);\n  return 0;\n}\n'
        return us, src, '.cpp' if cpp else '.c'

    def run(self, c):
        us, src, ext = self.source(c)
        labels = {c['lang'], c['cc'], c['opt'], 'other compiler' if c.get('other') else 'gnu'} | {u.name for u in us}
        flags = ['-std=' + c['lang'], c['opt'], '-fno-omit-frame-pointer', '-fno-builtin', '-U_FORTIFY_SOURCE', '-D_GNU_SOURCE', '-I' + self.lib]
        with Work() as w:
            m = w.compile('on', src, flags, [self.lib + '/libduma.a', '-lpthread'], c['cc'], ext)
            if m:
                return 'a program using the macros does not compile: ' + m, False, labels
            m = w.compile('off', src, flags + ['-DDUMA_NO_DUMA'], [], c['cc'], ext)
            if m:
                return 'the program does not compile with the off-switch: ' + m, False, labels
            r = w.run('on')
            o = r.out.decode('latin1')
            if r.rc == 77 and 'nomem' in o:
                return None, False, labels | {'nomem'}
            if r.rc != 0 or not o.endswith('end 0\n'):
                return 'nothing is wrong but the program ended with %s after `%s`; stderr: %s' % (r.how(), o[-60:], r.err[-300:].decode('latin1')), False, labels
            e = r.err.decode('latin1')
            if 'DUMA_ASSERT(' in e or 'Aborting' in e:
                return 'a message without a reason: ' + e[-300:], False, labels
            f = w.run('off')
            fo = f.out.decode('latin1')
            if f.rc != 0 or f.err:
                return 'with the off-switch the program ended with %s; stderr: %s' % (f.how(), f.err[-300:].decode('latin1')), False, labels
            want = o.splitlines()
            got = fo.splitlines()
            for u in us:
                if u.name == 'macros':
                    if set(x for x in want + got if x.startswith('evs%d ' % u.k)) - {'evs%d 0' % u.k}:
                        return 'an argument of a macro was not evaluated exactly once', False, labels
                    if 'evc%d 0' % u.k in want:
                        return 'an argument of a checking or setting macro was not evaluated exactly once', False, labels
                    want = [x for x in want if not x.startswith('evc%d ' % u.k)]
                    got = [x for x in got if not x.startswith('evc%d ' % u.k)]
                if u.name == 'assert':
                    ev = 'eval%d' % u.k
                    if ev + ' 1' not in want:
                        return 'the expression of DUMA_ASSERT(%s) was not evaluated exactly once' % u.text, False, labels
                    # not evaluated at all: the counter differs where it has effects
                    want = [x for x in want if not x.startswith(ev + ' ')]
                    got = [x for x in got if not x.startswith(ev + ' ')]
            if want != got:
                d = [(a, b) for a, b in zip(want, got) if a != b][:1]
                return 'with and without the off-switch the outputs differ: %s' % (d,), False, labels
            n = 0
            for u in us:
                if not u.bad:
                    continue
                n += 1
                r = w.run('on', [str(u.k)])
                e = r.err.decode('latin1')
                o2 = r.out.decode('latin1')
                what = '%s unit %d (%s)' % (u.name, u.k, u.text or '')
                labels.add('bad:' + u.name)
                if r.rc is None or r.rc == 0 or o2.endswith('end 0\n'):
                    return '%s: not stopped (%s)' % (what, r.how()), True, labels
                if r.rc > 0:
                    return '%s: ended with %s instead of being stopped' % (what, r.how()), True, labels
                if not o.startswith(o2) and u.name != 'assert':
                    return '%s: went on: %s' % (what, o2[-100:]), True, labels
                if u.name == 'assert' and ('cont%d' % u.k) in o2:
                    return '%s: went on after it failed' % what, True, labels
                if u.name in ('array', 'big') and ('r%d ' % u.k) in o2.replace('\n', ' ').split('at%d' % u.k)[-1]:
                    return '%s: the element was used' % what, True, labels
                if u.name == 'return' and 'back%d' % u.k in o2:
                    return '%s: returned' % what, True, labels
                pos = '%s(%d)' % (u.file, u.line)
                if 'DUMA_ASSERT(' not in e or pos not in e.split('DUMA_ASSERT(')[-1]:
                    return '%s: the message does not name %s: %s' % (what, pos, e[-400:]), True, labels
                if u.name == 'assert' and 'DUMA_ASSERT(%s) failed at' % u.text not in e:
                    return '%s: the message does not name the expression: %s' % (what, e[-400:]), True, labels
        return None, n > 0, labels | {'units:%d' % len(us)}
