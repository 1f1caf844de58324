"""Histories: lists of acts interpreted as a valid program of the library."""
import random
from hypothesis import strategies as st
from .model import *

I16 = st.integers(0, 65535)


BIG = 1 << 24        # blocks from this size on are only looked at in places


def acts(kinds, lo, hi):
    """kinds: string of 'kind:weight' words; the first is what shrinking aims at"""
    ks = []
    for w in kinds.split():
        k, _, n = w.partition(':')
        ks += [k] * int(n or 1)
    return st.lists(st.tuples(st.sampled_from(ks), I16, I16, I16).map(list), min_size=lo, max_size=hi)


def crowd(kinds, seed, n=33000):
    """a fixed history with very many blocks; kinds as in acts()"""
    r = random.Random(seed)
    ks = []
    for w in kinds.split():
        k, _, m = w.partition(':')
        ks += [k] * int(m or 1)
    a = [[r.choice(ks)] + [r.randrange(65536) for i in range(3)] for j in range(60)]
    return a[:20] + [['lots', n, seed, 0]] + a[20:]


def pick(*vals):
    return st.sampled_from(list(vals))


C_APIS = [MALLOC, MALLOC, CALLOC, MEMALIGN, POSIX, VALLOC, REALLOC0, STRDUP]
CPP_APIS = [NEW, NEWN, NEWA, NEWAN, MNEW, MNEWA]
ALL_APIS = C_APIS + CPP_APIS


class Hist(Prog):
    apis = ALL_APIS
    max_align_log = 13
    max_live_bytes = 24 << 20
    zero = False                 # may requests be of size zero?
    fls = (0, 0, 1, 1, 2, 3)
    unaligned_ok = False

    def __init__(self, cfg, flavour='static', files=None):
        super().__init__(cfg, flavour, files)
        self.bursts = []
        self.bytes = 0
        self.nalloc = 0

    # hooks for the checks
    def fresh(self, b):
        """called after a successful allocation op has been emitted"""
        self.adopt(b)

    def released(self, b):
        pass

    def resized(self, old, new):
        pass

    def pickb(self, sel, pred=None):
        l = [b for b in self.blks if b.state == 'live' and (pred is None or pred(b))]
        return l[sel % len(l)] if l else None

    def pickd(self, sel, pred=None):
        l = [b for b in self.blks if b.state == 'dead' and (pred is None or pred(b))]
        return l[sel % len(l)] if l else None

    def apply(self, a):
        k = a[0]
        getattr(self, 'do_' + k)(*a[1:])

    def run_acts(self, al):
        for a in al:
            self.apply(a)

    def do_al(self, s1, raw, s2):
        api = self.apis[s1 % len(self.apis)]
        size = size_of(raw)
        if self.zero and s2 % 5 == 0:
            size = 0
        if api == STRDUP:
            size = max(1, size)
        if self.bytes + size > self.max_live_bytes:
            return
        lg = (s2 >> 4) % (self.max_align_log + 1)
        if api == POSIX:
            lg = max(3, lg)
        if lg > 12 and (s2 >> 9) % 3:
            lg -= 8
        fl = self.fls[(s1 >> 5) % len(self.fls)]
        b = self.alloc(api, size, 1 << lg, fl=fl, sel=(s1 >> 3) ^ s2, split=(1, 2, 3, 4, 8, size)[s2 % 6] or 1)
        self.bytes += b.size
        self.nalloc += 1
        self.fresh(b)

    def do_fr(self, s1, s2, s3):
        b = self.pickb(s1)
        if b is None:
            return
        self.release(b, fl=self.fls[s3 % len(self.fls)], sel=s2)
        self.bytes -= b.size
        self.released(b)

    def do_re(self, s1, raw, s3):
        b = self.pickb(s1, lambda b: b.fam == 'C' and not b.shared and b.size < BIG)
        if b is None:
            return
        n = size_of(raw)
        if self.bytes + n > self.max_live_bytes:
            return
        x = self.resize(b, n, fl=self.fls[s3 % len(self.fls)], sel=s3)
        self.bytes += n - b.size
        self.nalloc += 1
        self.resized(b, x)
        self.released(b)

    def do_wr(self, s1, s2, s3):
        b = self.pickb(s1, lambda b: 0 < b.size < BIG)
        if b is None:
            return
        off = s2 % b.size if s2 % 3 else 0
        self.write(b, off, b.size if s3 % 3 == 0 else 1 + s3 % b.size, s2 ^ s3)

    def do_ve(self, s1, s2, s3):
        b = self.pickb(s1, lambda b: b.size < BIG)
        if b is not None:
            self.verify(b)

    def do_ck(self, s1, s2, s3):
        b = self.pickb(s1)
        if b is not None:
            self.want('c %d %d' % (b.reg, 2 if s2 % 2 else 0), 'c', 'ok')

    def do_ca(self, s1, s2, s3):
        self.want('k %d' % (2 if s1 % 2 else 0), 'k', 'ok')

    def do_nf(self, s1, s2, s3):
        if self.leak:
            self.want('nf', 'nf')

    def do_df(self, s1, s2, s3):
        if self.leak:
            self.want('d', 'd', 'ok')

    def do_us(self, s1, s2, s3):
        b = self.pickb(s1)
        if b is not None:
            self.want('q %d %d' % (b.reg, s2 % 3), 'q', b.size)

    def do_ch(self, s1, s2, s3):
        """churn: n allocation and release pairs"""
        n, size = 1 + s1 % 150, 1 + size_of(s2) % 9000
        self.want('y %d %d' % (n, size), 'y', -1)
        self.nalloc += n
        self.labels.add('churn')

    def do_bu(self, s1, s2, s3):
        """burst of equal blocks, enough to make the block table grow"""
        api = self.apis[s2 % len(self.apis)]
        self.burst(1 + s1 % 160, api, 1 + size_of(s3) % 6000, 1 << (3 + s2 % 4))

    def burst(self, n, api, size, al=8):
        if self.bytes + n * size > self.max_live_bytes:
            return
        r0 = self.nreg
        self.nreg += n
        n1, n2 = size, 0
        if api in (MEMALIGN, POSIX):
            n2 = al
        elif api == STRDUP:
            n1 = size - 1
        elif api == CALLOC:
            n1, n2 = size, 1
        bl = []
        for i in range(n):
            b = Blk()
            b.reg, b.size, b.api, b.fl, b.fam = r0 + i, size, api, 0, FAM[api]
            b.file, b.line = (UNK if api < 10 else UNKPP), 0
            if api >= 14:
                b.file = ''
            b.align, b.below, b.state = self.eff_align(api, size, al), self.below, 'live'
            b.fill, b.slack, b.written, b.resized, b.shared, b.freed_at = None, self.slack, True, False, False, None
            b.relfile, b.relline = None, 0
            b.born, b.died = len(self.lines), None
            self.blks.append(b)
            bl.append(b)

        def exp(f):
            for b, p in zip(bl, f[1:]):
                self.addr[b.reg] = int(p)
                if p == '0':
                    return 'allocation of %d bytes failed in a burst' % size
        self.op('b %d %d %d %d %d' % (r0, n, api, n1, n2), exp)
        self.bytes += n * size
        self.nalloc += n
        self.bursts.append(bl)
        self.labels.add('burst')

    def do_lots(self, s1, s2, s3):
        """more blocks than 15 or 16 bits count, of size zero"""
        self.want('al 0', 'al')
        self.burst(s1, (MALLOC, NEW)[s2 % 2], 0)
        self.bursts.pop()
        self.labels.add('%d blocks' % s1)

    def do_be(self, s1, s2, s3):
        """release a burst as far as it is still live"""
        if not self.bursts:
            return
        bl = self.bursts.pop(s1 % len(self.bursts))
        bl = [b for b in bl if b.state == 'live']
        i = 0
        while i < len(bl):
            j = i
            while j + 1 < len(bl) and bl[j + 1].reg == bl[j].reg + 1:
                j += 1
            r = RELS_OF[bl[i].fam]
            self.want('e %d %d %d' % (bl[i].reg, j - i + 1, r[s2 % len(r)]), 'e', 'ok')
            for b in bl[i:j + 1]:
                b.state = 'dead'
                b.died = len(self.lines) - 1
                b.relfile, b.relline = '', 0
                self.bytes -= b.size
                self.released(b)
            i = j + 1

    def do_V(self, s1, s2, s3):
        if self.nreg:
            for bl in self.bursts:
                if all(b.state == 'live' for b in bl):
                    self.want('V %d %d' % (bl[0].reg, len(bl)), 'V', -1)

    nhuge = 0

    def do_hu(self, s1, s2, s3):
        """blocks of many megabytes, sometimes beyond 2 and 4 GB; not filled, touched in places only"""
        if self.nhuge >= 2 or self.cfg.freeacc or self.cfg.maxa != -1:
            return
        self.nhuge += 1
        self.labels.add('huge')
        k = s2 % 6
        size = (BIG + s3 * 4099 if k == 0 else BIG + s3 * 640 if k < 3 else
                (1 << 31 if k == 3 else 1 << 32) - 32768 + s3 if k < 5 else (1 << 25 + s3 % 8) + (s3 >> 4) % 3 - 1)
        f = self.fill
        if f != -1:
            self.switch(fill=-1)
        b = self.alloc((MALLOC, MEMALIGN, NEW, NEWA, POSIX, VALLOC, REALLOC0, NEWAN)[s1 % 8], size, 1 << 4 + s3 % 9,
                       fl=s2 % 2, sel=s2)
        self.nalloc += 1
        self.huge_fresh(b)
        v = 1 + s3 % 250
        where = sorted({0, 1, PAGE, size // 2, size - PAGE, size - 1, size * (s3 + 1) // 65537})
        for o in where:
            self.op('S %d %d %d' % (b.reg, o, v), lambda f, o=o: None if f[1] != '-1' and f[2] == '1' else
                    'byte %d of a block of %d bytes is not accessible' % (o, size))
        if b.fam == 'C' and size < 3 * BIG and s1 & 64:
            n = (BIG + s2 * 500, BIG, size + 1, max(BIG, size - 1), BIG + PAGE - 1)[(s1 >> 7) % 5]
            x = self.resize(b, n, fl=s3 % 3, sel=s3)
            self.nalloc += 1
            self.huge_fresh(x, False)
            where = [o for o in where if o < n]
            self.labels.add('huge-resize')
            self.huge_gone(b)
            b = x
        for o in where:
            self.op('l %d %d 1 %d' % (b.reg, o, v), lambda f, o=o, n=b.size: None if f[2] == '-1' else
                    'byte %d of a block of %d bytes lost its value' % (o, n))
        if f != -1:
            self.switch(fill=f)
        if s1 & 24:
            self.release(b, fl=self.fls[(s1 >> 5) % len(self.fls)], sel=s2)
            self.huge_gone(b)

    def aliased(self, api, size, n, sel=0):
        """a filled block of some gigabytes, in memory that takes none; for a resize to n bytes some values are put in.
        For compiled code of some speed"""
        self.want('al %d' % (1 << 30), 'al')
        self.labels.add('filled beyond %d GB' % (size >> 31 << 1))
        b = self.alloc(api, size, 64, fl=sel % 2, sel=sel, split=(1, 4, size)[sel % 3])
        self.want('q %d %d' % (b.reg, b.reg % 3), 'q', b.size)

        def window(b, lo, hi, v, what):
            if lo < hi:
                self.op('l %d %d %d %d' % (b.reg, lo, hi - lo, v), lambda f: None if f[2] == '-1' else
                        'byte %s of %s block of %d bytes is not %d' % (f[2], what, b.size, v))
        GB = 1 << 31
        edges = [e for e in (GB, 2 * GB, 3 * GB) if e < size] + [size]
        for e in [600] + edges:
            window(b, max(0, e - 600), min(e + 300, size), max(b.fill, 0), 'a fresh')
        if n is None or b.fam != 'C':
            return b
        put = {}
        for e in [0] + edges:
            for o in (e - 301, e - 1, e, e + 250):
                if 0 <= o < size:
                    put[o] = 1 + len(put)
                    self.op('S %d %d %d' % (b.reg, o, put[o]), lambda f: None if f[2] == '1' else 'not accessible')
        x = self.resize(b, n, fl=sel % 3, sel=sel)
        self.want('q %d 0' % x.reg, 'q', n)
        for o, v in sorted(put.items()):
            if o < n:
                window(x, o, o + 1, v, 'a resized')
        for e in [e for e in (GB, 2 * GB, 3 * GB) if size < e < n] + [size + 300, n]:
            window(x, max(size, e - 300), min(n, e + 300), 0, 'the new part of a resized')
        if n < BIG:
            self.adopt(x)
        return x

    def huge_fresh(self, b, new=True):
        self.want('q %d %d' % (b.reg, b.reg % 3), 'q', b.size)

    def huge_gone(self, b):
        self.released(b)

    def do_sw(self, s1, s2, s3):
        w = s1 % 3
        if w == 0:
            self.switch(align=1 << (s2 % 9))
        elif w == 1:
            self.switch(below=s2 % 2)
        else:
            self.switch(fill=(-1, 0, 255, s3 % 256)[s2 % 4])
        self.labels.add('switch')

    # -- probes --------------------------------------------------------
    def guard(self, b):
        """the guard of a live block, whichever side it is on"""
        if b.size == 0:
            return

        def exp(f, b=b):
            whole, nr, nw, above, br, below = map(int, f[1:7])
            p = self.addr[b.reg]
            e = p + b.size
            d = '%s block of %d bytes (alignment %d, %s mode)' % (
                NAME[b.api], b.size, b.align, 'below' if b.below else 'above')
            if whole != -1:
                return d + ': its byte %d is not accessible' % whole
            if not b.below:
                pad = -e % PAGE
                if nr != pad or nw != pad:
                    return d + ': first unreadable/unwritable byte past the end at %d/%d, expected at %d' % (nr, nw, pad)
                if pad >= b.align:
                    return d + ': %d bytes of padding before the guard page' % pad
                if above:
                    return d + ': %d probed bytes of the page after it are accessible' % above
            else:
                if p % PAGE:
                    return d + ': does not start on a page boundary (%x)' % p
                if br != 1 or below:
                    return d + ': the page before it is accessible (first unreadable byte at -%d, %d probes)' % (br, below)
        self.op('g %d' % b.reg, exp)
        self.labels.add('guard-below' if b.below else 'guard-above')

    def do_gu(self, s1, s2, s3):
        b = self.pickb(s1)
        if b is not None:
            self.guard(b)
