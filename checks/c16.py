import re
from vlib.engine import Check
from vlib.hist import *
from vlib import build, run
from checks.c09 import H as Leaks
from checks.c15 import ZERO

LEAK = re.compile(r"\nDUMA: ptr=0x([0-9a-f]+) size=(\d+) type='([^']*)' (?:alloced from ([^\n]*?)\((\d+)\) )?not freed\n")
TOTAL = re.compile(r'DUMA: Reported (\d+) leak\(s\)\.\nDUMA: There are (\d+) extra leak\(s\) without allocation information\.\n')
STATS = re.compile(r'\nDUMA:   Allocation\(s\): (\d+)\nDUMA: Deallocation\(s\): (\d+)\n')
ALLOC = re.compile(r'\nDUMA: Allocating (\d+) byte\(s\)(?: at ((?:UNKNOWN \(use #include "dumap?p?\.h"\))|[^\n(]*)\((\d+)\))?\.')
FREE = re.compile(r'\nDUMA: Freeing (\d+) byte\(s\)(?: at (UNKNOWN \(use #include "dumap?p?\.h"\)|[^\n(]*)\((\d+)\) '
                  r'\(Allocated from (UNKNOWN \(use #include "dumap?p?\.h"\)|[^\n(]*)\((\d+)\)\))?\.')
HUGE = 1 << 46


class H(Leaks):
    """acts are generated in one order; each belongs to a thread, and a thread
    that continues with a block another one touched last waits for it"""
    fls = (0, 0, 1, 2, 2, 3)

    def __init__(self, cfg, flavour, nthr):
        super().__init__(cfg, flavour)
        self.nthr = nthr
        self.sect = None
        self.cur = 0
        self.nev = 0
        self.last = {}
        self.concurrent = 0
        self.tr_alloc, self.tr_free = [], []
        self.reps = 0
        self.handed = 0

    def op(self, text, exp=None):
        if getattr(self, 'sect', None) is None:
            return super().op(text, exp)
        self.sect[self.cur].append((text, exp))
        return 0

    def begin(self):
        self.sect = [[] for _ in range(self.nthr)]
        self.before = {id(b) for b in self.live()}
        self.born_in, self.died_in = [], []
        self.handler = None

    def touch(self, b):
        t = self.last.get(b.reg)
        if t is not None and t != self.cur:
            self.nev += 1
            self.sect[t].append(('sg %d' % self.nev, None))
            self.sect[self.cur].append(('wt %d' % self.nev, None))
            self.handed += 1
        self.last[b.reg] = self.cur

    def flush(self, jitter, slice_, seed):
        s, self.sect = self.sect, None
        for t, l in enumerate(s):
            self.op('>T %d' % (seed * 31 + t))
            for text, exp in l:
                self.op(text, exp)
        self.rline = self.op('>R %d %d %d' % (jitter, slice_, seed))

    # what the trace has to say
    def note_alloc(self, b):
        self.tr_alloc.append((b.size, b.file, b.line))

    def note_free(self, b, file, line):
        self.tr_free.append((b.size, file, line, b.file, b.line))

    def pickb(self, sel, pred=None):
        b = super().pickb(sel, pred)
        if b is not None and self.sect is not None:
            self.touch(b)
        return b

    def in_thread(self, t, a):
        self.cur = t % self.nthr
        self.apply(a)

    def apply(self, a):
        getattr(self, 'do_' + a[0])(*a[1:])

    def do_al(self, s1, raw, s2):
        api = self.apis[s1 % len(self.apis)]
        size = size_of(raw) % 20000 or 1
        if s2 % 9 == 0 and api not in (STRDUP, POSIX):
            size = 0
        if len(self.live()) > 60 + 80 * self.nbursts:
            return
        if api == NEW and size == 0:
            s1 &= ~32
        fl = self.fls[(s1 >> 5) % len(self.fls)]
        if size == 0 and fl in (2, 3) and api == NEW:
            fl = 0
        lg = (s2 >> 4) % 13
        b = self.alloc(api, size, 1 << max(3, lg), fl=fl, sel=(s1 >> 3) ^ s2)
        self.last[b.reg] = self.cur
        self.note_alloc(b)
        if not b.size:
            return
        if api == STRDUP:
            self.want('is %d' % b.reg, 'is', -1)
        elif b.fill is not None and b.fill >= 0:
            self.want('i %d 0 %d %d' % (b.reg, b.size, b.fill), 'i', -1)
        self.adopt(b)
        if s2 % 2:
            self.write(b, 0, min(b.size, 300), b.reg)

    def do_fr(self, s1, s2, s3):
        b = self.pickb(s1)
        if b is None:
            return
        if b.size:
            self.verify(b)
        r = RELS_OF[b.fam]
        api = r[s2 % len(r)]
        f, l = self.release(b, api=api, fl=self.fls[s3 % len(self.fls)], sel=s2)
        self.note_free(b, f, l)

    def do_re(self, s1, raw, s3):
        b = self.pickb(s1, lambda b: b.fam == 'C')
        if b is None:
            return
        x = self.resize(b, size_of(raw) % 30000 or 1, fl=self.fls[s3 % len(self.fls)], sel=s3)
        self.last[x.reg] = self.cur
        self.note_alloc(x)
        self.note_free(b, x.file, x.line)
        self.verify(x)

    def do_gu(self, s1, s2, s3):
        b = self.pickb(s1)
        if b is not None:
            self.guard(b)

    def do_rp(self, s1, s2, s3):
        """a report while the others go on"""
        if not self.leak:
            return
        self.want('d', 'd', 'ok')
        self.reps += 1

    def do_ct(self, s1, s2, s3):
        """constructors that throw"""
        if not self.leak:
            return
        which, mode = s1 % 7, 1 if s1 % 7 in (0, 2, 3, 5) else s2 % 4
        self.op('ct %d %d' % (which, mode), lambda f: None if f[1] == '7' else 'the exception of a constructor got lost')
        self.labels.add('ctor')
        self.extra_trace = True

    def do_tr(self, s1, s2, s3):
        """objects deleting objects in their destructors"""
        n = 1 + s1 % 4
        v = []
        for i in range(n):
            kids = ([i + 1] if i + 1 < n else [-1]) + [(-1, -3, -3)[(s2 >> (2 * i)) % 3]]
            v += [kids[0], (s3 >> i) % 4, kids[1], (s3 >> (i + 3)) % 4]
        self.want('tr %d %s' % (n, ' '.join(map(str, v))), 'tr', 'ok')
        self.labels.add('nested delete')
        self.extra_trace = True
    extra_trace = False

    def do_ch(self, s1, s2, s3):
        self.want('y %d %d' % (1 + s1 % 12, 1 + size_of(s2) % 3000), 'y', -1)
        self.extra_trace = True

    def do_nl(self, s1, s2, s3):
        b = self.pickb(s1, lambda b: b.size)
        if b is None:
            return
        self.want('nl %d %d %d %d %d' % (b.reg, 1 + s2 % 3, 1 + s2 % 300, (0, 0, 10, 12)[s3 % 4], 1 + s3 % 3), 'nl', 'ok')
        self.extra_trace = True

    def do_ex(self, s1, s2, s3):
        """a request no system can satisfy"""
        api = (MALLOC, CALLOC, NEW, NEWN, NEWA, NEWAN, POSIX, MEMALIGN)[s1 % 8]
        b = self.alloc(api, HUGE + s2 * PAGE, 16, fl=self.fls[s3 % 2], sel=s3, expect='bad_alloc' if api in (NEW, NEWA) else 'null')
        self.note_alloc(b)
        self.labels.add('exhausted')
        if api >= NEW:
            self.extra_trace = True      # the exception object

    def do_bu(self, s1, s2, s3):
        """enough blocks to make the table grow"""
        n = 20 + s1 % 60
        if self.nbursts >= 3:
            return
        self.nbursts += 1
        bl0 = len(self.blks)
        api = (MALLOC, NEW, NEWA, CALLOC)[s2 % 4]
        r0 = self.nreg
        self.nreg += n
        size = 1 + size_of(s3) % 3000
        for i in range(n):
            b = Blk()
            b.reg, b.size, b.api, b.fl, b.fam = r0 + i, size, api, 0, FAM[api]
            b.file, b.line = (UNK if api < 10 else UNKPP), 0
            b.align, b.below, b.state = self.eff_align(api, size, 0), self.below, 'live'
            b.fill, b.slack, b.written, b.resized, b.shared, b.freed_at = None, self.slack, True, False, False, None
            b.relfile, b.relline, b.born, b.died = None, 0, 0, None
            self.blks.append(b)
            self.last[b.reg] = self.cur
            self.note_alloc(b)
        bl = self.blks[bl0:]

        def exp(f):
            for b, p in zip(bl, f[1:]):
                self.addr[b.reg] = int(p)
                if p == '0':
                    return 'allocation of %d bytes failed in a burst' % size
        self.op('b %d %d %d %d %d' % (r0, n, api, size, 1), exp)
        if s2 % 3 == 0:
            self.want('e %d %d %d' % (r0, n, RELS_OF[FAM[api]][0]), 'e', 'ok')
            for b in bl:
                b.state = 'dead'
                b.relfile, b.relline = '', 0
                self.note_free(b, '', 0)
        self.labels.add('growth')
    nbursts = 0

    def do_us(self, s1, s2, s3):
        b = self.pickb(s1)
        if b is not None:
            self.want('q %d %d' % (b.reg, s2 % 3), 'q', b.size)

    def check_section(self, t, lib):
        """t: what was printed during the section"""
        known = {}
        for b in self.blks:
            known.setdefault(self.addr.get(b.reg), []).append(b)
        pos = 0
        ms = sorted([(m.start(), 'leak', m) for m in LEAK.finditer(t)] + [(m.start(), 'total', m) for m in TOTAL.finditer(t)],
                    key=lambda x: x[0])
        seen, reports = [], []
        for _, k, m in ms:
            if k == 'leak':
                seen.append(m)
            else:
                reports.append((seen, int(m.group(1)), int(m.group(2))))
                seen = []
        if seen:
            return 'a report without its totals: `%s`' % t[-300:]
        stay = [b for b in self.live() if id(b) in self.before]
        must_i = [b for b in stay if self.cfg.reportall or b.line > 0]
        if len(reports) > self.reps or (stay and len(reports) != self.reps):
            return '%d reports were asked for, %d were printed' % (self.reps, len(reports))
        for ls, n, x in reports:
            if len(ls) != n:
                return 'a report of %d lines says that %d leaks were reported' % (len(ls), n)
            got = set()
            for m in ls:
                a = int(m.group(1), 16)
                if a in got:
                    return 'a report lists the block at %x twice' % a
                got.add(a)
                if m.group(0) in lib:
                    continue
                c = [b for b in known.get(a, []) if b.size == int(m.group(2)) and NAME[b.api] == m.group(3)
                     and (m.group(4) is None or (b.file, b.line) == (m.group(4), int(m.group(5))))]
                if not c and not (self.extra_trace and not known.get(a)):
                    return 'a report lists `%s`, which no call has allocated' % m.group(0).strip()
            for b in must_i:
                if self.addr[b.reg] not in got:
                    return 'a report lacks the block at %x of %d bytes, which was live all the time' % (self.addr[b.reg], b.size)
            if n + x < len(stay):
                return 'a report counts %d blocks, but %d were live all the time' % (n + x, len(stay))
        return None

    def check_trace(self, t, full):
        def norm(f):
            return f if f is not None and '#include' not in f else '?'
        import collections
        A, F = collections.Counter(), collections.Counter()
        for m in ALLOC.finditer(t):
            if (m.group(2) or '').endswith('duma.c') and int(m.group(1)) % PAGE == 0:
                continue
            A[(int(m.group(1)), norm(m.group(2)), int(m.group(3) or 0))] += 1
        for m in FREE.finditer(t):
            if (m.group(2) or '').endswith('duma.c') and int(m.group(1)) % PAGE == 0:
                continue
            F[(int(m.group(1)), int(m.group(3) or 0), norm(m.group(4)), int(m.group(5) or 0))] += 1
        WA, WF = collections.Counter(), collections.Counter()
        for s, f, l in self.tr_alloc:
            WA[(s, norm(f) if self.leak else '?', l if self.leak else 0)] += 1
        for s, f, l, af, al in self.tr_free:
            WF[(s, l if self.leak else 0, norm(af) if self.leak else '?', al if self.leak else 0)] += 1
        for what, got, want in (('allocation', A, WA), ('release', F, WF)):
            if not self.leak:
                # the table of blocks cannot be told apart here
                got = collections.Counter({k: v for k, v in got.items() if k[0] % PAGE or k in want})
                want = collections.Counter({k: v for k, v in want.items()})
                for k in list(got):
                    if k[0] % PAGE == 0 and got[k] > want[k]:
                        got[k] = want[k]
            if (want - got) or (got - want) and not self.extra_trace:
                return 'trace lines of the section: missing %s %s, too many %s' % (
                    what, list((want - got).items())[:3], list((got - want).items())[:3])
        return None


class CHECK(Check):
    id = 'C16'
    rule = ('random histories distributed over 2 to 6 threads that hand blocks to each other, over all entry points with '
            'queries, checks, reports, deletions in destructors, throwing constructors, exhausted requests and nested '
            'use of the lock; run under a seeded scheduler that can switch threads at every memory access of the '
            'library, or freely with random delays at every system call. Contents, guards, sizes, results, reports, '
            'trace and statistics are compared with the model. Non-trivial: at least two threads with five calls each, '
            'and a block handed over or released by another thread.')
    quick, thorough = 2600, 60000
    retries, needs = 30, 2
    shrink_tries = 3
    assumptions = ['the instrumented build can switch threads at every memory access of the library, '
                   'the others at system calls and calls of the library only']

    def setup(self):
        self.exe = build.flavours('static', 'shared', 'noleak', 'sched', 'sched_noleak')

    def strategy(self, tier):
        n = 36 if tier == 'quick' else 90
        ks = 'al:9 fr:7 re:3 wr:2 ve:2 us:3 ck:3 ca:1 gu:1 rp:2 ct:1 tr:1 ch:1 nl:1 ex:2 bu:1'
        act = acts(ks, 12, n)
        return st.fixed_dictionaries({
            'flavour': pick('sched', 'sched', 'sched', 'sched', 'sched_noleak', 'static', 'shared', 'noleak'),
            'n': pick(2, 3, 2, 4, 6),
            'below': pick(0, 0, 1),
            'align': pick(1, 1, 8, 16),
            'pf': pick(-1, -1, 0, 64, 1024),
            'maxa': pick(-1, -1, -1, 500),
            'freq': pick(0, 0, 0, 1, 5),
            'all': pick(0, 1),
            'show': pick(0, 0, 1),
            'fail': pick(0, 0, 1),
            'handler': pick(0, 1),
            'slice': pick(1, 2, 5, 20, 60, 300, 2000),
            'jitter': pick(0, 10, 40),
            'seed': st.integers(0, 99999),
            'pre': acts('al:5 fr:1', 0, 8),
            'acts': act,
            'who': st.integers(0, 1 << 62),
        })

    def fixed(self):
        out = []
        for f in ('sched', 'sched_noleak', 'static', 'shared'):
            for n in (2, 4):
                for sl in (1, 3, 10, 40, 400):
                    for k in range(3):
                        a = [['al', 7 * j + k, 8 + j * 11, 3 * j + 1] for j in range(12)]
                        a += [['us', j, j, j] for j in range(4)] + [['fr', j, j + k, j] for j in range(12)]
                        a += [['tr', 3, 5, 5 * k], ['ct', k, 1, 1]] + [['us', j, j, j] for j in range(3)]
                        out.append({'flavour': f, 'n': n, 'below': k & 1, 'align': 1, 'pf': (-1, 64, 0)[k], 'maxa': -1, 'freq': 0,
                                    'all': 0, 'show': int(k == 2), 'fail': 0, 'handler': 0, 'slice': sl, 'jitter': 20,
                                    'seed': sl * 100 + k, 'pre': [['al', j, 90 * j, 1] for j in range(4)],
                                    'acts': [x for y in zip(a, a[::-1]) for x in y], 'who': 0x1b1b27c6d8e41b93 * (k + 1)})
        base = {'below': 0, 'align': 1, 'pf': -1, 'maxa': -1, 'freq': 0, 'all': 0, 'fail': 0, 'jitter': 40, 'pre': []}

        def turns(n, acts):
            return {'n': n, 'acts': acts, 'who': sum(i % n << 2 * i for i in range(31))}
        # one thread deletes through the macros, others by calls of every form of operator delete
        for k in range(36):
            api = (NEW, NEWA)[k % 2]
            pre = [['al', ALL_APIS.index(api), 8 + 9 * i, 9 * i + 1] for i in range(46)]
            a = [['fr', i, (0, 2, 3)[(k // 2 + i // 2) % 3], 0] if i % 31 % 2 else
                 ['tr', 3, (0, 0x3f, 21)[k % 3], 5 * i + k] for i in range(93)]
            out.append(dict(base, flavour=('static', 'sched')[k // 2 % 2], slice=(1, 2, 5, 12, 30, 90)[k // 4 % 6], seed=k, show=1,
                            handler=0, **dict(turns(2, a), pre=pre)))
        # several threads run out of memory at the same time
        for k in range(24):
            out.append(dict(base, flavour=('sched', 'sched', 'static', 'shared', 'sched_noleak')[k % 5], slice=(1, 2, 5, 12, 30)[k // 5], seed=k,
                            show=0, handler=int(k % 4 > 0), **turns(2 + k % 3, [['ex', 2 + (i * k + i) % 4, i, 0] for i in range(31)])))
        return out

    def build(self, c):
        cfg = Cfg(align=c['align'], below=c['below'], pf=c['pf'], maxa=c['maxa'], freq=c['freq'], reportall=c['all'],
                  show=c['show'], failexit=0)
        h = H(cfg, c['flavour'], c['n'])
        # the caches of the C library are filled by threads that do nothing
        for t in range(c['n']):
            h.op('>T 0')
        h.op('>R 0 0 0')
        h.a0 = h.op('tl')
        if h.leak:
            h.want('d', 'd', 'ok')
        h.a1 = h.op('tl')
        h.labels.add('threads:%d' % c['n'])
        if c['handler']:
            h.op('H 2 1')
        for a in c['pre']:
            h.cur = 0
            h.apply(a)
        h.last = {}
        h.b0 = h.op('tl')
        h.tr_alloc, h.tr_free = [], []
        h.begin()
        w = c['who']
        for i, a in enumerate(c['acts']):
            h.in_thread((w >> (2 * (i % 31))) % 4 + (i // 31 if c['n'] > 4 else 0), a)
        h.counts = [sum(1 for x in s if x[0][:2] not in ('sg', 'wt', 's ', 'w ')) for s in h.sect]
        h.flush(c['jitter'], c['slice'] if c['flavour'].startswith('sched') else 0, c['seed'])
        h.b1 = h.op('tl')
        for b in h.live():
            if b.size:
                h.verify(b)
                h.guard(b)
            h.want('q %d 0' % b.reg, 'q', b.size)
            h.want('c %d 0' % b.reg, 'c', 'ok')
        h.want('k 0', 'k', 'ok')
        h.want('hc', 'hc', None) if False else h.op('hc', lambda f: None if f[2] == str(c['handler']) else
                                                    'the installed new-handler is not the one the program set (%s)' % f[2])
        h.c0 = h.op('tl')
        exp = h.expected()

        def final(R):
            at = lambda i: int(R.log[i].split()[2])
            base = R.err[at(h.a0):at(h.a1)].decode('latin1')
            m = TOTAL.search(base)
            extra = int(m.group(2)) + int(m.group(1)) if m else 0
            t = R.err[at(h.b0):at(h.b1)].decode('latin1')
            lib = {x.group(0) for x in LEAK.finditer(base)}
            e = h.check_section(t, lib)
            if e:
                return e
            if c['show']:
                e = h.check_trace(t, R.err)
                if e:
                    return e
            # the addresses of live blocks are all different
            iv = sorted((h.addr[b.reg], h.addr[b.reg] + b.size) for b in h.live() if b.size)
            for x, y in zip(iv, iv[1:]):
                if x[1] > y[0]:
                    return 'two live blocks overlap: %x and %x' % (x[0], y[0])
            if not h.leak:
                return None
            t = R.err[at(h.c0):].decode('latin1')
            bl, n, k = exp
            ls = [m.group(0) for m in LEAK.finditer(t)]
            for b in bl:
                l = h.line(b)
                if l not in ls:
                    return 'the last report lacks `%s`' % l.strip()
                ls.remove(l)
            ls = [l for l in ls if l not in lib]
            if ls:
                return 'the last report lists `%s`, which is not live' % ls[0].strip()
            m = TOTAL.search(t)
            got = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
            want = (n + (extra if c['all'] else 0), k + (0 if c['all'] else extra))
            if got != want:
                return 'the last report counts %s leaks with and without information, expected %s' % (got, want)
            if c['show']:
                T = R.err.decode('latin1')
                m = list(STATS.finditer(T))[-1]
                got = (int(m.group(1)), int(m.group(2)))
                want = (len(re.findall(r'\nDUMA: Allocating \d+ byte', T)), len(re.findall(r'\nDUMA: Freeing \d+ byte', T)))
                if got != want:
                    return 'the statistics say %s allocations and releases, but %s were printed' % (got, want)
        h.final.append(final)
        return h

    def run(self, c):
        h = self.build(c)
        R = run.run_script(self.exe[c['flavour']], h.script(), h.cfg.env())
        # what an op expects may depend on one that another thread made
        for i, l in enumerate(h.lines):
            w, r = l.split(), R.log.get(i, '').split()
            if w and w[0] == 'b':
                for k, p in enumerate(r[1:]):
                    h.addr[int(w[1]) + k] = int(p)
            elif w and w[0] in ('a', 'r') and len(r) > 1:
                h.addr[int(w[1] if w[0] == 'a' else w[2])] = int(r[1])
        m = h.judge(R)
        nt = sum(1 for x in h.counts if x >= 5) >= 2 and h.handed > 0
        lab = set(h.labels) | {c['flavour'], 'slice:%d' % c['slice'] if c['flavour'].startswith('sched') else 'free'}
        if not m and c['flavour'].startswith('sched'):
            sw = int(R.log[h.rline].split()[1])
            lab.add('switches:%s' % ('<10' if sw < 10 else '<100' if sw < 100 else '<1000' if sw < 1000 else '>=1000'))
        return m, nt, lab
