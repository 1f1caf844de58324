"""The reference model: what a script has to observe.

A Prog is a script under construction: every op carries the predicate its
logged result has to satisfy.  Cases are lists of small integers ("acts") that a
Prog interprets, so that every list is a valid program and shrinks freely."""
import re
import signal

PAGE = 4096
MALLOC, CALLOC, MEMALIGN, POSIX, VALLOC, REALLOC0, STRDUP, ALIGNED = range(8)
NEW, NEWN, NEWA, NEWAN, MNEW, MNEWA = range(10, 16)

NAME = {0: 'malloc()', 1: 'calloc()', 2: 'memalign()', 3: 'posix_memalign()', 4: 'valloc()', 5: 'realloc()',
        6: 'strdup()', 10: 'scalar new', 11: 'scalar new', 12: 'vector new[]', 13: 'vector new[]',
        14: 'member scalar new', 15: 'member vector new[]'}
FAM = {**{i: 'C' for i in range(8)}, 10: 'new', 11: 'new', 12: 'arr', 13: 'arr', 14: 'mnew', 15: 'marr'}
# release calls: api -> (family, name used in diagnostics)
REL = {0: ('C', 'free()'), 1: ('C', 'realloc()'), 10: ('new', 'scalar delete'), 11: ('new', 'scalar delete'),
       12: ('arr', 'vector delete[]'), 13: ('arr', 'vector delete[]'), 14: ('mnew', 'member scalar delete'),
       15: ('marr', 'member vector delete[]'), 16: ('new', 'scalar delete'), 17: ('arr', 'vector delete[]')}
RELS_OF = {'C': [0, 0, 0, 1], 'new': [10, 10, 11, 16], 'arr': [12, 12, 13, 17], 'mnew': [14], 'marr': [15]}
UNK = 'UNKNOWN (use #include "duma.h")'
UNKPP = 'UNKNOWN (use #include "dumapp.h")'
MACLINE = {0: 101, 1: 102, 2: 105, 3: 106, 4: 107, 5: 104, 6: 108}

FILES = ['main.c', 'lib/alloc.c', 'a.c', '/usr/src/some/deep/dir/file name.cc', 'x%sy%d.c', 'z' * 120 + '.c',
         'src\\win.cpp', 'UNKNOWN.c']


def size_of(raw):
    """interesting sizes; raw is 16 bits, 0 is the simplest"""
    c, q = raw % 8, raw >> 3
    if c <= 1:
        return 1 + q % 64
    if c == 2:
        return 1 + q % 600
    if c == 3:
        return max(1, PAGE * (1 + q % 3) + (q >> 2) % 41 - 20)
    if c == 4:
        return 1 + q * 3
    if c == 5:
        return max(1, (1 << (q % 15)) + (q >> 4) % 3 - 1)
    if c == 6:
        return 1 + (q * 37) % 70000
    return 8 * (1 + q % 700)


def mix(x, *more):
    """evenly distributed, unlike the integers generated"""
    for y in more:
        x = x << 16 | y
    x = (x * 0x9E3779B97F4A7C15 + 0x7F4A7C15) & (1 << 64) - 1
    x = (x ^ x >> 29) * 0xBF58476D1CE4E5B9 & (1 << 64) - 1
    return x >> 20


def line_of(sel):
    m = mix(sel) % 60
    if m < 10:
        return (1, 32767, 32768, 65535, 65536, 70001, 999999, 2147483647, 255, 256)[m]
    return 1 + (sel * 7919) % 9973


def pow2_le(n):
    return 1 << (n.bit_length() - 1)


class Cfg:
    def __init__(self, **kw):
        self.align = 1
        self.below = 0
        self.fill = 255
        self.slack = 0xAA
        self.freq = 0
        self.z_c = 3
        self.z_cpp = 3
        self.failexit = 1
        self.pf = -1
        self.maxa = -1
        self.freeacc = 0
        self.show = 0
        self.reportall = 0
        self.overlap = 0
        self.extra = {}
        self.__dict__.update(kw)

    def env(self):
        e = {}

        def put(k, v, d):
            if v != d:
                e[k] = str(v)
        put('DUMA_ALIGNMENT', self.align, 1)
        put('DUMA_PROTECT_BELOW', self.below, 0)
        put('DUMA_FILL', self.fill, 255)
        put('DUMA_SLACKFILL', self.slack, 0xAA)
        put('DUMA_CHECK_FREQ', self.freq, 0)
        put('DUMA_MALLOC_0_STRATEGY', self.z_c, 3)
        put('DUMA_NEW_0_STRATEGY', self.z_cpp, 3)
        put('DUMA_MALLOC_FAILEXIT', self.failexit, 1)
        put('DUMA_PROTECT_FREE', self.pf, -1)
        put('DUMA_MAX_ALLOC', self.maxa, -1)
        put('DUMA_FREE_ACCESS', self.freeacc, 0)
        put('DUMA_SHOW_ALLOC', self.show, 0)
        put('DUMA_REPORT_ALL_LEAKS', self.reportall, 0)
        put('DUMA_MEMCPY_OVERLAP', self.overlap, 0)
        e.update(self.extra)
        return e


class Blk:
    __slots__ = ('reg', 'size', 'api', 'fl', 'file', 'line', 'align', 'below', 'fam', 'state', 'fill', 'freed_at',
                 'slack', 'written', 'resized', 'shared', 'relfile', 'relline', 'born', 'died')


class Prog:
    def __init__(self, cfg, flavour='static', files=None):
        self.cfg = cfg
        self.flavour = flavour
        self.leak = 'noleak' not in flavour
        self.so = flavour.startswith('shared')
        self.lines = []
        self.exps = {}
        self.nreg = 0
        self.blks = []
        self.align, self.below, self.fill, self.slack = cfg.align, cfg.below, cfg.fill, cfg.slack
        self.stop = self.unless = self.stopped_at = None
        self.labels = set()
        self.files = files or FILES
        for i, f in enumerate(self.files):
            self.op('F %d "%s' % (i, f))
        self.addr = {}
        self.final = []     # predicates over the whole Result
        self.exit = 0
        self.bad_end = False

    # -- plumbing -------------------------------------------------------
    def op(self, text, exp=None):
        self.lines.append(text)
        if exp:
            self.exps[len(self.lines) - 1] = exp
        return len(self.lines) - 1

    def want(self, text, *fields):
        """op whose result must be exactly these fields"""
        w = ' '.join(str(x) for x in fields)
        return self.op(text, lambda f, w=w, t=text: None if ' '.join(f) == w else
                       '`%s` gave `%s`, expected `%s`' % (t, ' '.join(f), w))

    def script(self):
        return '\n'.join(self.lines) + '\n'

    def live(self):
        return [b for b in self.blks if b.state == 'live']

    def dead(self):
        return [b for b in self.blks if b.state == 'dead']

    # -- call-site attribution -------------------------------------------
    def site(self, api, fl, sel):
        """-> (fl, file index, line, file and line as recorded)"""
        if not self.leak and fl == 1:
            fl = 0
        if fl == 1:
            fi, line = sel % len(self.files), line_of(sel)
            return 1, fi, line, self.files[fi], line
        if fl == 2:
            if api >= 10:
                return 2, 0, 0, 'macro_site.cpp', {10: 203, 12: 204}[api]
            return 2, 0, 0, 'macro_site.c', MACLINE[api]
        if api >= 14:
            return fl, 0, 0, self.files[0], 0
        return fl, 0, 0, (UNK if api < 10 else UNKPP), 0

    # -- operations ------------------------------------------------------
    def eff_align(self, api, size, align):
        if api in (MEMALIGN, POSIX):
            return align
        if api == VALLOC:
            return PAGE
        if size < self.align:
            return pow2_le(size) if size else 1
        return self.align

    def alloc(self, api, size, align=16, fl=0, sel=0, split=1, expect='ok'):
        """expect: ok | null | bad_alloc | derived (a class of it) | any"""
        if fl == 2 and (api in (NEWN, NEWAN, MNEW, MNEWA) or (api >= 10 and not self.leak)):
            fl = 0
        if fl == 3 and (api < 10 or api >= 14):
            fl = 0
        if fl in (2, 3) and api == NEW:
            size = (1, 24, 200)[size % 3]
        if fl == 3 and api == NEWN:
            size = 1 if size % 2 else 200
        fl, fi, ln, file, line = self.site(api, fl, sel)
        if fl == 2 and api == NEW:
            line = {1: 201, 24: 202, 200: 203}[size]
        b = Blk()
        b.reg = self.nreg
        self.nreg += 1
        b.api, b.fl, b.file, b.line = api, fl, file, line
        b.fam = FAM[api]
        n1, n2 = size, 0
        if api == CALLOC:
            d = split if split and size % max(split, 1) == 0 else 1
            n1, n2 = (size // d, d) if size else (0, split)
        elif api in (MEMALIGN, POSIX, ALIGNED):
            n2 = align
        elif api == STRDUP:
            n1 = size - 1
        b.size = size
        b.below = self.below
        b.align = self.eff_align(api, size, align)
        b.slack = self.slack
        b.fill = 0 if api == CALLOC else self.fill if api != STRDUP else None
        b.state = 'live' if expect == 'ok' else 'failed'
        b.written = b.resized = b.shared = False
        b.freed_at = None
        b.relfile, b.relline = None, 0
        b.born, b.died = len(self.lines), None
        self.blks.append(b)

        def exp(f, b=b):
            p, rc, exc = int(f[1]), int(f[2]), int(f[3])
            self.addr[b.reg] = p
            d = '%s of %d bytes' % (NAME.get(api, api), size)
            if expect == 'ok':
                if exc:
                    return d + ' threw an exception'
                if p == 0 or (api == POSIX and rc):
                    return d + ' failed (rc %d)' % rc
            elif expect == 'null':
                if exc:
                    return d + ' threw an exception instead of returning null'
                if p:
                    return d + ' returned %x instead of failing' % p
                if api == POSIX and rc != 12:
                    return d + ' returned %d instead of ENOMEM' % rc
            elif expect == 'bad_alloc':
                if exc != 1:
                    return d + ' returned %x (exception %d) instead of throwing bad_alloc' % (p, exc)
            elif expect == 'derived':
                if exc != 3:
                    return d + ' returned %x (exception %d) instead of passing on the exception of the new-handler' % (p, exc)
        self.op('a %d %d %d %d %d %d %d' % (b.reg, api, fl, n1, n2, fi, ln), exp)
        return b

    def rel_site(self, api, fl, sel):
        """where a release is recorded: (fl, fi, ln, file or None, line)"""
        if fl == 3 and api not in (10, 12):
            fl = 0
        if fl == 2 and (api not in (0, 1, 10, 12) or (api >= 10 and not self.leak)):
            fl = 0
        if api in (16, 17) and fl == 1:
            fl = 0
        if not self.leak and fl == 1:
            fl = 0
        if fl == 1:
            fi, line = sel % len(self.files), line_of(sel)
            return 1, fi, line, self.files[fi], line
        if fl == 2:
            if api >= 10:
                return 2, 0, 0, 'macro_site.cpp', {10: 205, 12: 206}[api]
            return 2, 0, 0, 'macro_site.c', {0: 103, 1: 104}[api]
        if api in (0, 1):
            return fl, 0, 0, UNK, 0
        if api in (14, 15):
            return fl, 0, 0, self.files[0], 0
        return fl, 0, 0, None, 0      # plain delete: file unknown

    def release(self, b, api=None, fl=0, sel=0):
        if api is None:
            r = RELS_OF[b.fam]
            api = r[sel % len(r)]
        fl, fi, ln, file, line = self.rel_site(api, fl, sel)
        b.state = 'dead'
        b.died = len(self.lines)
        b.relfile, b.relline = file, line
        self.want('f %d %d %d %d %d' % (b.reg, api, fl, fi, ln), 'f', 'ok')
        return file, line

    def resize(self, b, newsize, fl=0, sel=0):
        """to a non-zero size"""
        if fl == 3:
            fl = 0
        fl, fi, ln, file, line = self.site(REALLOC0, fl, sel)
        n = Blk()
        n.reg = self.nreg
        self.nreg += 1
        n.size, n.api, n.fl, n.file, n.line = newsize, REALLOC0, fl, file, line
        n.fam, n.below, n.state, n.slack = 'C', self.below, 'live', self.slack
        n.align = self.eff_align(MALLOC, newsize, 0)
        n.fill = None
        n.written, n.resized, n.shared = b.written, True, False
        n.freed_at = None
        n.relfile, n.relline = None, 0
        b.state = 'dead'
        b.died = n.born = len(self.lines)
        n.died = None
        b.relfile, b.relline = file, line
        self.blks.append(n)

        def exp(f, n=n, b=b):
            p = int(f[1])
            self.addr[n.reg] = p
            if not p:
                return 'realloc to %d bytes returned null' % newsize
        self.op('r %d %d %d %d %d %d' % (b.reg, n.reg, newsize, fl, fi, ln), exp)
        return n

    def adopt(self, b):
        """take the current contents of a fresh block as its shadow"""
        self.want('s %d' % b.reg, 's')

    def write(self, b, off, n, seed):
        n = min(n, b.size - off)
        if n > 0:
            self.want('w %d %d %d %d' % (b.reg, off, n, seed), 'w')
            b.written = True

    def verify(self, b):
        def exp(f):
            if f[0] == 'unreadable':
                return 'byte %s of a live %d-byte block cannot be read' % (f[-1], b.size)
            if f[-1] != '-1':
                return 'byte %s of a live %d-byte block changed' % (f[-1], b.size)
        self.op('v %d' % b.reg, exp)

    def switch(self, align=None, below=None, fill=None):
        v = [(-999 if x is None else x) for x in (align, below, fill)]
        if align is not None:
            self.align = align
        if below is not None:
            self.below = below
        if fill is not None:
            self.fill = fill
        self.want('t %d %d %d' % tuple(v), 't')

    def disjoint(self, keep_dead):
        """final predicate: no block overlaps one that was live at its birth
        (with keep_dead: or one that had been released before)"""
        def final(R):
            import bisect
            ev = []
            for b in self.blks:
                p = self.addr.get(b.reg)
                if not p or not b.size or b.born is None or b.shared:
                    continue
                ev.append((b.born, 1, p, p + b.size, b))
                if b.died is not None and not keep_dead:
                    ev.append((b.died, 2, p, p + b.size, b))
            # a resize allocates the new block before it releases the old one
            ev.sort(key=lambda e: (e[0], e[1]))
            cur = []
            for t, w, lo, hi, b in ev:
                i = bisect.bisect_left(cur, (lo, hi))
                if w == 2:
                    if i < len(cur) and cur[i] == (lo, hi):
                        del cur[i]
                    continue
                if (i < len(cur) and cur[i][0] < hi) or (i and cur[i - 1][1] > lo):
                    return '%d-byte block at %x (op %d `%s`) overlaps an earlier %sblock' % (
                        b.size, lo, t, self.lines[t], 'live or released ' if keep_dead else 'live ')
                cur.insert(i, (lo, hi))
        self.final.append(final)

    # -- judging ---------------------------------------------------------
    def expect_stop(self, text, check, unless=None):
        """the program has to be stopped inside this op (or, when it is a list,
        in one of these at the latest); check(result) -> None or what is wrong;
        unless(result): true when there is no reason to stop after all,
        'any' when it is open what happens"""
        ts = [text] if isinstance(text, str) else text
        i = [self.op(t) for t in ts]
        self.stop = (i[0], i[-1], check)
        self.unless = unless

    def judge(self, R):
        if not R.ready:
            return 'the program did not reach main: %s; stderr: %s' % (R.how(), tail(R.err))
        stop = self.stop
        for i in range(len(self.lines)):
            if stop and i == stop[0] and self.unless:
                u = self.unless(R)
                if u == 'any':
                    return None
                if u:
                    stop = None
            if self.lines[i].startswith(('F ', '>T')) or self.lines[i] in ('sil', ''):
                continue
            r = R.log.get(i)
            if stop and stop[0] <= i <= stop[1]:
                if r is None:
                    self.stopped_at = i
                    return stop[2](R)
                if i == stop[1]:
                    return 'not stopped by `%s` (result `%s`, %s); stderr: %s' % (self.lines[i], r, R.how(), tail(R.err))
                continue
            if r is None:
                return 'stopped at op %d `%s`: %s; %s stderr: %s' % (i, self.lines[i], R.how(), R.fault or '', tail(R.err))
            e = self.exps.get(i)
            if e:
                m = e(r.split())
                if m:
                    return 'op %d: %s' % (i, m)
        if self.leak and not self.bad_end and R.err.find(b'Aborting') >= 0:
            return 'a message about an abort in a run that ended normally: ' + tail(R.err)
        if not R.ended and not any(l.startswith('z ') for l in self.lines):
            return 'did not finish: ' + R.how() + ' ' + tail(R.err)
        if R.status != self.exit << 8:
            return 'ended with %s instead of exit status %d; stderr: %s' % (R.how(), self.exit, tail(R.err))
        for f in self.final:
            m = f(R)
            if m:
                return m
        return None


def tail(b, n=300):
    return b[-n:].decode('latin1').strip().replace('\n', ' | ')


def aborted(R, pattern=None):
    """the documented way to stop: diagnostic, then SIGILL"""
    if R.sig() != signal.SIGILL:
        return 'stopped by %s instead of SIGILL; stderr: %s' % (R.how(), tail(R.err))
    t = R.err.decode('latin1')
    if 'DUMA Aborting: ' not in t:
        return 'stopped without a diagnostic'
    if pattern is not None and not re.search(pattern, t, re.S):
        return 'the diagnostic `%s` does not match `%s`' % (tail(R.err), pattern)
    return None
