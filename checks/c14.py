from vlib.engine import Check
from vlib.hist import *
from vlib import build, run


def internal(size):
    """what a block takes, guard included, at alignments up to a page"""
    return PAGE + (size + PAGE - 1) // PAGE * PAGE if size else PAGE


class H(Hist):
    """keeps track of which released blocks are still mapped"""
    apis = ALL_APIS
    zero = True
    max_align_log = 12
    max_live_bytes = 40 << 20
    faulty = False             # is a mapping about to be refused?
    looks = trims = givebacks = 0

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.want('mb', 'mb')
        self.kept = {}         # register -> (bytes, is the first page there), as last seen
        # duma_init() itself allocates and releases a block; it may still be kept, too
        self.hid = 0 if self.cfg.pf == 0 else 2 * PAGE
        self.pending = []

    def fresh(self, b):
        if b.size:
            self.adopt(b)
            self.write(b, 0, min(b.size, 300), b.reg)

    # what may the call just emitted have done to the blocks kept so far?
    def do_al(self, *a):
        n = len(self.blks)
        super().do_al(*a)
        if len(self.blks) > n:
            self.look('alloc', self.blks[-1])

    def do_bu(self, *a):
        n = len(self.blks)
        super().do_bu(*a)
        if len(self.blks) > n:
            self.look('burst', None)

    def do_be(self, *a):
        n = len(self.lines)
        super().do_be(*a)
        if len(self.lines) > n:
            self.look('many', None)

    def do_fr(self, *a):
        b = [x for x in self.blks if x.state == 'live']
        super().do_fr(*a)
        d = [x for x in b if x.state == 'dead']
        if d:
            self.look('release', d[0])

    def do_re(self, *a):
        b = [x for x in self.blks if x.state == 'live']
        n = len(self.blks)
        super().do_re(*a)
        d = [x for x in b if x.state == 'dead']
        if d:
            self.look('resize', d[0], self.blks[-1])

    def do_gr(self, s1, s2, s3):
        """one block after the other, each released at once"""
        size = size_of(s1)
        for i in range(1 + s2 % 12):
            b = self.alloc((MALLOC, NEWA)[s3 % 2], size, fl=0)
            self.fresh(b)
            self.look('alloc', b)
            self.release(b, fl=0, sel=s3)
            self.look('release', b)
            size += (s3 % 7) * 512

    def do_big(self, s1, s2, s3):
        """blocks for which memory has to be obtained from the system"""
        n = 1 + s1 % 3
        bs = []
        for i in range(n):
            size = (1 << 20) + (s2 % 97) * 30000
            if self.bytes + size > self.max_live_bytes:
                break
            b = self.alloc((MALLOC, NEW, NEWA)[s1 % 3], size, fl=0)
            self.bytes += size
            self.fresh(b)
            self.look('alloc', b)
            bs.append(b)
        for b in bs:
            if s3 % 3:
                self.release(b, fl=0, sel=s3)
                self.bytes -= b.size
                self.look('release', b)
        self.labels.add('big')

    def do_oom(self, s1, s2, s3):
        """an allocation for which the system refuses memory at first"""
        if self.cfg.pf == 0 or not self.dead() or self.stormy:
            return
        self.want('m 0 1 %d' % (1 << 20), 'm')
        b = self.alloc((MALLOC, NEW, NEWA)[s1 % 3], (1 << 20) + s2 * 16, fl=0)
        self.fresh(b)
        self.look('oom1', b)
        self.want('m 0 0', 'm')
        self.release(b, fl=0)
        self.look('release', b)
        self.labels.add('refused')
    stormy = False

    def do_lim(self, s1, s2, s3):
        """nothing but what is kept is left for an allocation"""
        if 0 <= self.cfg.pf < 1 << 20 or 0 < self.cfg.maxa < 1 << 20 or self.stormy:
            return
        n, size, k = 1 + s1 % 6, (1 << 20) + (s2 % 61) * 50000, 0
        bs = []
        for i in range(n):
            if self.bytes + size > self.max_live_bytes:
                break
            b = self.alloc((MALLOC, NEW, NEWA)[s1 % 3], size, fl=0)
            self.bytes += size
            self.fresh(b)
            bs.append(b)
        for b in bs:
            self.release(b, fl=0, sel=s3)
            self.bytes -= b.size
            k += internal(b.size)
        if k < 3 << 20:
            return
        self.look('none', None)
        r = 1
        if s2 & 64:
            # the first pieces given back are not enough for the system
            size = (1 << 20) + s3 * 4
            r = min(1 + s2 % 5, (k - (1 << 20)) // (internal(size) + internal(bs[0].size) + 8192))
            if r < 1:
                return
            self.want('m 0 %d %d' % (r, 1 << 20), 'm')
            self.labels.add('refused %d times' % r)
        else:
            size = (1 << 20) + s3 * 40 % (k - (3 << 20) + 1)
            self.want('ml 65536', 'ml')
        b = self.alloc((MALLOC, NEW, NEWA)[s1 % 3], size, fl=0)
        self.fresh(b)
        self.look('oom%d' % r, b)
        self.want('m 0 0' if s2 & 64 else 'ml 0', 'm' if s2 & 64 else 'ml')
        if s3 & 1:
            self.release(b, fl=0)
            self.look('release', b)
        else:
            self.bytes += b.size
        self.labels.add('limit')

    def do_rounds(self, s1, s2, s3):
        """the same rounds over and over take no more memory"""
        if self.cfg.pf < 0 and self.cfg.maxa < 0:
            return
        if self.cfg.pf > 900 or self.cfg.maxa > 900:
            return
        if self.stormy:
            return
        self.stormy = True
        size = 1 + s1 % 4096
        t = {}

        def at(k):
            def exp(f):
                t[k] = int(f[3])
                if self.cfg.pf > 0:
                    self.hid = self.cfg.pf * 1024      # blocks of these rounds are kept as well
                if k and t[k] > t[0] + (96 << 10):
                    return '%d allocate/release rounds of %d bytes, with nothing else going on, made the ' \
                        'memory in use grow from %d to %d' % (4096 * k, size, t[0], t[k])
            return exp
        self.want('y 1024 %d' % size, 'y', -1)
        self.op('M', at(0))
        self.want('y 4096 %d' % size, 'y', -1)
        self.op('M', at(1))
        self.labels.add('rounds')
        self.look('many', None)

    def look(self, what, b, b2=None):
        """observe what is kept, and judge the change since the last look"""
        ds = sorted((x for x in self.blks if x.state == 'dead'), key=lambda x: x.died)[-150:]
        if not ds:
            return
        self.looks += 1
        live = sum(internal(x.size) for x in self.live())
        N, M = self.cfg.pf, self.cfg.maxa
        leave = set(x.reg for x in ds)

        def exp(f):
            now = {}
            for i, x in enumerate(ds):
                if int(f[1 + 2 * i]):
                    now[x.reg] = (int(f[1 + 2 * i]) * PAGE, int(f[2 + 2 * i]))
            old = {r: v for r, v in self.kept.items() if r in leave}
            # blocks no longer watched
            self.hid += sum(v[0] for r, v in self.kept.items() if r not in leave)
            self.kept = now
            tot, was = sum(v[0] for v in now.values()), sum(v[0] for v in old.values())
            st = '%d bytes of released blocks are kept (%d before)' % (tot, was)
            if N == 0 and tot:
                return st + ' with DUMA_PROTECT_FREE=0'
            if N > 0 and tot > N * 1024:
                return st + ' with DUMA_PROTECT_FREE=%d' % N
            lost = {r: v[0] - now.get(r, (0, 0))[0] for r, v in old.items() if now.get(r, (0, 0))[0] < v[0]}
            more = [r for r, v in now.items() if r in old and v[0] > old[r][0]]
            if more:
                return 'memory of released block %d is mapped again' % more[0]
            for r in lost:
                self.givebacks += 1
            if what in ('release', 'resize'):
                I = internal(b.size)
                after_b = now.get(b.reg, (0, 0))
                # in a resize the allocation of the new block may have given back, too
                loose = what == 'resize' and (M > 0 or self.faulty)
                if N < 0 or (N > 0 and was + self.hid + I <= N * 1024):
                    if after_b[0] != I or not after_b[1]:
                        return 'a released block of %d bytes is not kept (%d of its pages are): %s' % (
                            b.size, after_b[0] // PAGE, st)
                    if lost and not loose:
                        return 'releasing %d bytes, for which there is room, gave back older blocks: %s' % (b.size, st)
                elif N > 0 and I < N * 1024 and was >= I and not loose:
                    if after_b[0] != I or not after_b[1]:
                        return 'a released block of %d bytes is not kept although older ones can be given back ' \
                            '(%d of its pages are): %s' % (b.size, after_b[0] // PAGE, st)
                    big = max([v[0] for v in old.values()] or [0])
                    if sum(lost.values()) > I + big:
                        return 'releasing %d bytes gave back %d bytes of older blocks' % (b.size, sum(lost.values()))
                elif N > 0 and not loose:
                    if lost and I > N * 1024:
                        return 'releasing %d bytes, which never fit the budget, gave back older blocks: %s' % (b.size, st)
            if N > 0:
                self.hid = min(self.hid, N * 1024 - tot)
            if what in ('alloc', 'burst') and M <= 0 and not self.faulty and lost:
                return 'an allocation gave back released blocks although memory was available: ' + st
            if what.startswith('oom') and M <= 0:
                c = (internal(b.size) >> 20) + 2 << 20
                big = max([v[0] for v in old.values()] or [0])
                if sum(lost.values()) > int(what[3:]) * (c + big):
                    return 'an allocation of %d bytes gave back %d bytes, more than it could need: %s' % (b.size, sum(lost.values()), st)
            # a block beyond the pool's 1 MB always takes memory from the system
            if M > 0 and what == 'alloc' and b.size >= 1 << 20 and tot and live + tot > (M + 1024) * 1024:
                return '%d live and still %d protected bytes with DUMA_MAX_ALLOC=%d after a request of %d bytes' % (
                    live, tot, M, b.size)
            if what == 'alloc' and M > 0 and lost and was + live <= (M - 3072) * 1024:
                return 'an allocation far below DUMA_MAX_ALLOC=%d (%d live and %d protected bytes) gave back ' \
                    'released blocks' % (M, live, was)
        self.op('kp ' + ' '.join('%d %d' % (x.reg, x.below) for x in ds), exp)

    def do_tu(self, s1, s2, s3):
        """released memory cannot be touched"""
        d = self.pickd(s1)
        if d:
            self.want('P %d' % d.reg, 'P', 0, -1)

    def do_gu(self, s1, s2, s3):
        super().do_gu(s1, s2, s3)
        b = self.pickb(s1)
        if b is not None and b.size:
            self.verify(b)

    def finish(self, fin):
        kind, s1, s2, s3 = fin
        d = self.pickd(s1)
        for b in self.live()[:60]:
            if b.size:
                self.verify(b)
                self.guard(b)
        self.want('k 0', 'k', 'ok')
        if kind == 'none' or d is None:
            return
        r = RELS_OF[d.fam][s2 % len(RELS_OF[d.fam])]
        fl, fi, ln, file, line = self.rel_site(r, s3 % 2, s3)
        self.look('none', None)

        def chk(R):
            if d.reg in self.kept and self.kept[d.reg][1]:
                self.labels.add('kept-again')
                pat = '%x' % self.addr[d.reg] + '.*already freed'
                if self.leak and d.relline:
                    pat += '.*' + re.escape('%s(%d)' % (d.relfile, d.relline))
                else:
                    pat += '(?! *\\.? *Address)'
                m = aborted(R, pat)
                if m:
                    return m
                if b'not from DUMA' in R.err:
                    return 'a block that is still kept is not recognised: ' + tail(R.err)
                return None
            return aborted(R, '%x' % self.addr[d.reg] + '.*already freed')
        self.expect_stop('f %d %d %d %d %d' % (d.reg, r, fl, fi, ln), chk)


class CHECK(Check):
    id = 'C14'
    rule = ('random histories of allocations, resizes and releases, with runs of allocate-and-release rounds, under random '
            'values of DUMA_PROTECT_FREE and DUMA_MAX_ALLOC, with an address space in which no address is ever mapped '
            'twice; after every call the pages of every released block that are still mapped are counted and the change '
            'is compared with what the budgets require; live blocks keep contents and guards; ended by releasing a '
            'released block again. Non-trivial: memory of a released block was given back, or a budget was set and at '
            'least four looks were taken.')
    quick, thorough = 3600, 60000
    assumptions = ['alignments up to a page', 'at most the last 150 released blocks are watched']

    def setup(self):
        self.exe = build.flavours('static', 'shared', 'noleak')

    def strategy(self, tier):
        n = 20 if tier == 'quick' else 60
        return st.fixed_dictionaries({
            'flavour': pick('static', 'static', 'noleak', 'shared'),
            'below': pick(0, 0, 1),
            'align': pick(1, 1, 16, 4096),
            'pf': pick(40, -1, 0, 4, 8, 12, 16, 64, 100, 256, 1000, 3000, 10000, (1 << 32) + 1, (1 << 31) + 40, 1 << 33),
            'maxa': pick(-1, -1, 100, 1500, 4000, 9000, (1 << 32) + 100, 1 << 31),
            'fin': st.tuples(pick('none', 'double'), I16, I16, I16).map(list),
            'acts': acts('al:6 fr:8 gr:3 re:3 big:3 tu:1 gu:2 ve:1 bu:1 be:1 oom:2 lim:3 sw:1 ca:1 rounds:1', 4, n)})

    def build(self, c):
        h = H(Cfg(align=c['align'], below=c['below'], pf=c['pf'], maxa=c['maxa']), c['flavour'])
        h.run_acts(c['acts'])
        h.finish(c['fin'])
        return h

    def run(self, c):
        h = self.build(c)
        R = run.run_script(self.exe[c['flavour']], h.script(), h.cfg.env())
        m = h.judge(R)
        return m, h.givebacks > 0 or ((c['pf'] >= 0 or c['maxa'] > 0) and h.looks > 3), h.labels | {c['flavour']} | (
            {'giveback'} if h.givebacks else set())
