import bisect
from vlib.engine import Check
from vlib.hist import *
from vlib import build, run
from checks.c11 import H as Failing

MB = 1 << 20


def up(x):
    return x + PAGE - 1 & -PAGE


class H(Failing):
    zero = True
    max_align_log = 16
    probes = 0

    def __init__(self, cfg, flavour):
        super().__init__(cfg, flavour)
        self.want('un', 'un')
        self.op('u')

    def fresh(self, b):
        if b.size:
            super().fresh(b)

    def doomed(self, api, n1, n2, fl, sel, what):
        if what == 'refused' and api in (NEW, NEWA):
            api += 1           # the exception itself would need memory
        return super().doomed(api, n1, n2, fl, sel, what)

    def apply(self, a):
        n = len(self.lines)
        super().apply(a)
        if len(self.lines) > n:
            self.op('u')
            self.probes += 1

    def do_al(self, s1, raw, s2):
        # zero-size requests with a strategy that stops or gives null are C10's
        z = self.cfg.z_c
        self.zero = z in (2, 3)
        super().do_al(s1, raw, s2)
        b = self.blks[-1] if self.blks else None
        if b is not None and b.size == 0 and b.state == 'live' and (z == 2 and b.fam == 'C'):
            b.shared = True

    def do_mi(self, s1, s2, s3):
        """calls that do nothing or fail by their arguments"""
        k = s1 % 6
        self.labels.add('misc%d' % k)
        if k == 0:
            self.want('x %d 3 0 0 0 0 0 0' % (0, 10, 12)[s2 % 3], 'x', 0, 'ok')
        elif k == 1:
            al = (0, 3, 4, 24, 7, 12)[s2 % 6]
            self.op('a %d 3 0 %d %d 0 0' % (self.nreg, 1 + s3 % 5000, al))
            self.nreg += 1
        elif k == 2:
            b = self.pickb(s2, lambda b: b.fam == 'C' and b.size)
            if b is not None:
                b.state = 'dead'
                b.died = len(self.lines)
                self.op('r %d %d 0 0 0 0' % (b.reg, self.nreg))
                self.nreg += 1
        elif k == 3:
            self.op('nf')
            self.op('u')
            self.op('d')
        elif k == 4:
            self.op('A %d' % s2)
            self.op('O %d 0 %d %d %d 0 0' % (s2 % 2, 100 + s3 % 300, 5000, s3 % 300))
        elif k == 5:
            # queries for addresses of every kind
            b = self.pickb(s2)
            if b is not None:
                self.want('q %d 0' % b.reg, 'q', b.size)

    def do_hn(self, s1, s2, s3):
        """what a new-handler may touch"""
        api = (NEW, NEWN, NEWA, NEWAN)[s1 % 4]
        mode = (1, 1, 2)[(s1 >> 2) % 3]
        self.want('H %d %d' % (mode, 1 + s2 % 3), 'H')
        self.want('m 0 1000000 %d' % MB, 'm')
        b = self.alloc(api, MB + s3 * 37, expect={1: 'ok'}.get(mode) or ('bad_alloc' if api in (NEW, NEWA) else 'null'))
        if b.state == 'live':
            self.bytes += b.size
            self.fresh(b)
        self.op('un')
        self.op('mq')
        self.want('H 0 0', 'H')
        self.labels.add('in a handler')

    def do_mu(self, s1, s2, s3):
        """giving memory back fails for a while (as when a process has too many mappings)"""
        self.op('mu %d %d' % (s1 % 3, (1, 2, 5, 40)[s2 % 4]))
        self.labels.add('munmap fails')

    def do_sl(self, s1, s2, s3):
        if s1 % 3 == 0:
            self.do_sw(s2, s3, s1)

    def accessible(self, R):
        """replays the log: every accessible page belongs to a live block"""
        live = {}
        below = {b.reg: b.below for b in self.blks}
        n = 0
        for i, l in enumerate(self.lines):
            r = R.log.get(i)
            w = l.split()
            if r is None:
                if not w or w[0] == 'F':
                    continue
                break
            f = r.split()
            k = w[0]
            if k in ('u', 'un'):
                v = list(map(int, f[2:] if k == 'u' else f[1:]))
                if k == 'un' and not v:
                    continue
                n += 1
                iv = sorted(((p & -PAGE) - x, up(p + s) + y) for p, s, x, y in live.values() if p and s)
                # the block that the same line resulted in is not there inside its handler
                merged = []
                for lo, hi in iv:
                    if merged and lo <= merged[-1][1]:
                        merged[-1][1] = max(hi, merged[-1][1])
                    else:
                        merged.append([lo, hi])
                for lo, hi in zip(v[::2], v[1::2]):
                    # parts of [lo, hi) outside merged
                    at = lo
                    j = max(0, bisect.bisect_right(merged, [at, 1 << 64]) - 1)
                    while at < hi:
                        while j < len(merged) and merged[j][1] <= at:
                            j += 1
                        if j < len(merged) and merged[j][0] <= at:
                            at = merged[j][1]
                            continue
                        end = min(hi, merged[j][0] if j < len(merged) else hi)
                        return '%d bytes of the debugger\'s memory at %x are accessible %s op %d `%s`' % (
                            end - at, at, 'inside a new-handler called by' if k == 'un' else 'after', self.before(i), self.lines[
                                self.before(i)])
            elif k == 'a':
                api, n1, n2 = int(w[2]), int(w[4]), int(w[5])
                size = n1 * n2 if api == CALLOC else n1 + 1 if api == STRDUP else n1
                if f[1] != '0':
                    # the checked padding of a block aligned to more than a page is on the side without guard
                    x = max(0, n2 - PAGE) if api in (MEMALIGN, POSIX) else 0
                    live[int(w[1])] = (int(f[1]), size) + ((0, x) if below.get(int(w[1])) else (x, 0))
            elif k == 'r':
                if f[1] != '0' or w[3] == '0':
                    live.pop(int(w[1]), None)
                if f[1] != '0':
                    live[int(w[2])] = (int(f[1]), int(w[3]), 0, 0)
            elif k == 'f':
                live.pop(int(w[1]), None)
            elif k == 'b':
                api, n1, n2 = int(w[3]), int(w[4]), int(w[5])
                size = n1 * n2 if api == CALLOC else n1 + 1 if api == STRDUP else n1
                for j, p in enumerate(f[1:]):
                    if p != '0':
                        live[int(w[1]) + j] = (int(p), size, 0, 0)
            elif k == 'e':
                for j in range(int(w[2])):
                    live.pop(int(w[1]) + j, None)
        self.seen = n
    seen = 0

    def before(self, i):
        while i > 0 and self.lines[i].split()[0] in ('u', 'un', 'mq', 'm', 'H'):
            i -= 1
        return i


class CHECK(Check):
    id = 'C18'
    rule = ('random histories over every kind of call - allocation, resize, release, zero sizes, bursts that grow the table '
            'of blocks, checks, queries, frames and reports, switches, requests that fail by size, by arguments or because '
            'the system refuses memory - after each of which the list of accessible mappings of the process, restricted to '
            'what the debugger obtained from the system, must be covered by the pages of live blocks; likewise inside '
            'new-handlers. Non-trivial: at least five probes after an allocation, a release and a third kind of call.')
    quick, thorough = 3200, 60000
    assumptions = ['x86-64 Linux', 'DUMA_OUTPUT_FILE is not set (the copy of its value is readable)']

    def setup(self):
        self.exe = build.flavours('static', 'shared', 'noleak', 'getenv')

    def strategy(self, tier):
        n = 24 if tier == 'quick' else 60
        return st.fixed_dictionaries({
            'flavour': pick('static', 'static', 'shared', 'noleak', 'getenv'),
            'below': pick(0, 0, 1),
            'align': pick(1, 1, 2, 8, 16, 4096),
            'pf': pick(-1, -1, 0, 64, 4096),
            'maxa': pick(-1, -1, -1, 1500),
            'fx': pick(0, 0, 1),
            'z': pick(3, 3, 2, 1),
            'freq': pick(0, 0, 1, 3),
            'fill': pick(255, 255, -1),
            'show': pick(0, 0, 0, 1),
            'acts': acts('al:8 fr:6 re:3 im:2 ri:1 no:1 sm:1 li:1 ca:1 ck:1 bu:2 be:2 ch:1 fl:1 sl:1 us:1 nf:1 df:1 mi:4 hn:2 '
                         'mu:1 hu:1', 6, n)})

    def fixed(self):
        out = []
        for f in ('static', 'shared', 'noleak'):
            for b in (0, 1):
                for pf in (-1, 0):
                    out.append({'flavour': f, 'below': b, 'align': 1, 'pf': pf, 'maxa': -1, 'fx': 0, 'z': 3, 'freq': 0,
                                'fill': 255, 'show': 0, 'acts': [['al', 5, 3, 9], ['bu', 159, 0, 2], ['be', 0, 0, 0]] * 3
                                + [['mi', k, j, 77 * j] for k in range(6) for j in range(6)]})
        return out

    def build(self, c):
        h = H(Cfg(align=c['align'], below=c['below'], pf=c['pf'], maxa=c['maxa'], fill=c['fill'], failexit=c['fx'],
                  z_c=c['z'], freq=c['freq'], show=c['show']), c['flavour'])
        h.cfg.extra['GLIBCXX_TUNABLES'] = 'glibcxx.eh_pool.obj_count=0'
        for a in c['acts']:
            h.apply(a)
        return h

    def run(self, c):
        h = self.build(c)
        R = run.run_script(self.exe[c['flavour']], h.script(), h.cfg.env())
        m = h.judge(R) or h.accessible(R)
        ks = {a[0] for a in c['acts']}
        nt = h.probes >= 5 and bool(h.live() or h.dead()) and bool(ks & {'fr', 're', 'be'}) and len(ks) >= 3
        return m, nt, h.labels | {c['flavour'], 'pf:%d' % c['pf'], 'z:%d' % c['z']}
