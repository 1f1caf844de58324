from vlib.engine import Check
from vlib.hist import *
from vlib import build, run

U = (1 << 64) - 1


def signed(x):
    return x - (1 << 64) if x >> 63 else x


def impossible(s1, s2):
    """sizes no system can provide"""
    k = s1 % 9
    if k == 0:
        return U - s2 % 5000
    if k == 1:
        return U - (s2 * 4096) % (1 << 22) - s2 % 3
    if k == 2:
        return (1 << 63) + s2 - 300
    if k == 3:
        return (1 << 48) + s2 * 4099
    if k == 4:
        return U - 4095 + s2 % 4096
    if k == 5:
        return U - (1 << 20) - s2 % 9000 + 4500
    if k == 6:
        return ((s2 % 60000 + 3) << 48) + s2 % 700
    if k == 7:
        return U - 8191 + s2 % 4096
    return (1 << 47) + (s2 << 20)


class H(Hist):
    fails = tries = 0
    faulty = False

    def fresh(self, b):
        self.adopt(b)
        self.write(b, 0, min(b.size, 400), b.reg)

    # the outcome of a request that must fail
    def doomed(self, api, n1, n2, fl, sel, what):
        if api >= 10:
            exp = 'null' if api in (NEWN, NEWAN) else 'bad_alloc'
            if api in (MNEW, MNEWA):
                api, exp = NEW, 'bad_alloc'
        elif self.cfg.failexit:
            return False
        else:
            exp = 'null'
        if fl == 2 and api >= 10:
            fl = 0
        b = self.alloc(api, 8, 16, fl=fl, sel=sel, expect=exp)
        i = len(self.lines) - 1
        w = self.lines[i].split()
        w[4], w[5] = str(signed(n1)), str(signed(n2))
        self.lines[i] = ' '.join(w)
        inner = self.exps[i]

        def expf(f):
            m = inner(f)
            return m and 'a request that cannot be met (%s): %s' % (what, m)
        self.exps[i] = expf
        b.state = 'failed'
        b.size = 0
        self.fails += 1
        self.labels.add('fail:' + what)
        self.labels.add('failapi:%d' % api)
        return True

    def params(self, s1, s2, s3):
        """a request that is unsatisfiable by its size: (api, n1, n2, what)"""
        k = s1 % 7
        if k == 0:
            # products around the word size
            a = (1 << (s2 % 60 + 2)) + s3 % 3
            b = U // a + 1 + (s3 >> 4) % 3
            if (s3 >> 2) % 3 == 0:
                a, b = b, a
            return CALLOC, a & U, b & U, 'product'
        if k == 1:
            al = 1 << (48 + s2 % 16)
            n = s3 + 1 if s2 % 3 == 1 else impossible(s3, s2)
            if s2 % 3 == 2:             # together with the alignment about the size of the address space
                n = max(1, (1 << 64) - al - 9000 + mix(s3) % 13000) & U or 1
            return (MEMALIGN, POSIX)[s1 // 7 % 2], n, al, 'alignment'
        if k == 2:
            return POSIX, impossible(s2, s3), 1 << (3 + s3 % 61), 'size'
        api = (MALLOC, VALLOC, REALLOC0, MEMALIGN, CALLOC, NEW, NEWN, NEWA, NEWAN, NEW)[s3 % 10]
        n = impossible(s2, s3 >> 3)
        return api, n, (16 if api == MEMALIGN else 1), 'size'

    def do_im(self, s1, s2, s3):
        api, n1, n2, what = self.params(s1, s2, s3)
        self.doomed(api, n1, n2, (s1 >> 4) % 3, s2, what)

    def do_ri(self, s1, s2, s3):
        """a resize that must fail leaves the block alone"""
        if self.cfg.failexit:
            return
        b = self.pickb(s1, lambda b: b.fam == 'C' and b.size)
        if b is None:
            return
        n = impossible(s2, s3)
        fl, fi, ln, _, _ = self.site(REALLOC0, s3 % 3, s3)

        def exp(f):
            if f[1] != '0':
                return 'resize to %d bytes gave %x' % (n, int(f[1]))
        self.op('r %d %d %d %d %d %d' % (b.reg, 139999, signed(n), fl, fi, ln), exp)
        self.verify(b)
        self.guard(b)
        self.want('q %d 0' % b.reg, 'q', b.size)
        self.fails += 1
        self.labels.add('fail:resize')

    def do_no(self, s1, s2, s3):
        """the system refuses everything for a while; requests above a megabyte need it"""
        self.op('m 0 %d' % 100000)
        for i in range(1 + s1 % 3):
            s = s2 * (i + 3) ^ s3
            size = (1 << 20) + s % 3000000
            if s % 4 == 0 and not self.cfg.failexit:
                b = self.pickb(s, lambda b: b.fam == 'C' and b.size)
                if b is not None:
                    def exp(f, size=size):
                        if f[1] != '0':
                            return 'resize to %d bytes gave %x while the system refuses memory' % (size, int(f[1]))
                    self.op('r %d 139999 %d 0 0 0' % (b.reg, size), exp)
                    self.verify(b)
                    self.fails += 1
                    continue
            api = (MALLOC, CALLOC, MEMALIGN, POSIX, VALLOC, REALLOC0, NEW, NEWN, NEWA, NEWAN)[s % 10]
            if self.cfg.failexit and api in (NEW, NEWA):
                api += 1       # the exception itself needs memory from malloc
            self.doomed(api, size, 1 if api == CALLOC else 16, (s >> 5) % 3, s, 'refused')
        self.op('mq')
        for b in self.live()[-4:]:
            self.verify(b)
            self.guard(b)
        b = self.alloc((MALLOC, NEW)[s1 % 2], 1 + s2 % 5000)
        self.fresh(b)

    def do_sm(self, s1, s2, s3):
        """small requests while the system refuses: they may fail, but only as documented"""
        api = (NEWN, NEWAN)[s1 % 2]
        if not self.cfg.failexit:
            api = (MALLOC, CALLOC, NEWN, POSIX, MEMALIGN, VALLOC, REALLOC0, STRDUP, NEWAN)[s1 % 9]
        n = 1 + s2 % 400
        size = 1 + s3 % 9000
        if s3 % 3 == 0:
            size = 1 + s3 % 64
        self.sm(api, n, size, s1)

    def sm(self, api, n, size, s1):
        self.op('m 0 1000000')
        r0 = self.nreg
        self.nreg += n
        n1, n2 = (size - 1, 0) if api == STRDUP else (size, 1 if api == CALLOC else 16)
        self.op('b %d %d %d %d %d' % (r0, n, api, n1, n2))
        self.want('V %d %d' % (r0, n), 'V', -1)
        self.op('mq')
        for b in self.live()[-3:]:
            self.verify(b)
            self.guard(b)
        if s1 & 64:
            self.want('e %d %d %d' % (r0, n, 0 if api < 10 else 11 if api == NEWN else 13), 'e', 'ok')
        self.labels.add('refused-burst')
        self.tries += 1

    def do_sx(self, s1, s2, s3):
        self.sm(NEWN if self.cfg.failexit else MALLOC, s1 + s2, s3, 0)

    def do_li(self, s1, s2, s3):
        """a limited amount of further memory"""
        api = (NEWN, NEWAN)[s1 % 2]
        if not self.cfg.failexit:
            api = (MALLOC, CALLOC, NEWN, POSIX, REALLOC0)[s1 % 5]
        n, size = 1 + s2 % 60, (1 << 14) + s3 * 20
        self.op('ml %d' % ((1 << 20) + s2 * 100))
        r0 = self.nreg
        self.nreg += n
        self.op('b %d %d %d %d %d' % (r0, n, api, size, 1 if api == CALLOC else 16))
        self.want('V %d %d' % (r0, n), 'V', -1)
        self.op('mq')
        self.want('e %d %d %d' % (r0, n, 0 if api < 10 else 11 if api == NEWN else 13), 'e', 'ok')
        self.labels.add('limit')
        self.tries += 1

    def do_hu(self, s1, s2, s3):
        """large sizes the system does provide are provided in full"""
        if self.fill != -1 or self.huge >= 3:
            return
        self.huge += 1
        size = ((1 << 31, 1 << 32, 3 << 31)[s1 % 3] + (s2 % 3 - 1) * (s3 % 9000))
        api = (MALLOC, MEMALIGN, NEW, NEWAN, POSIX)[s2 % 5]
        b = self.alloc(api, size, 1 << 3 + s3 % 12)
        for o in (0, size // 2, size - 1):
            self.want('p %d %d' % (b.reg, o), 'p', 3)
        self.want('q %d 0' % b.reg, 'q', size)
        if b.below:
            self.want('p %d -1' % b.reg, 'p', 0)
        elif b.align <= PAGE:
            self.want('p %d %d' % (b.reg, -(-size // b.align) * b.align), 'p', 0)
        if s1 % 2:
            self.release(b)
        else:
            b.state = 'huge'
        self.labels.add('huge')
    huge = 0

    def do_fl(self, s1, s2, s3):
        if s1 % 2:
            self.switch(align=1 << (s2 % 9))
        else:
            self.switch(below=1 - self.below)

    def finish(self, fin):
        kind, s1, s2, s3 = fin
        if kind == 'none':
            return
        if kind == 'mprotect':
            self.op('mp %d' % (1 + s1 % 4))
            i = self.nreg
            self.labels.add('mprotect')
            return self.expect_stop(['a %d 0 0 %d 0 0 0' % (i + k, 1 + s2 % 9000) for k in range(4)],
                                    lambda R: aborted(R, 'mprotect'))
        if not self.cfg.failexit:
            return
        if kind == 'refuse':
            self.op('m 0 100000')
            api = (MALLOC, CALLOC, MEMALIGN, POSIX, VALLOC, REALLOC0)[s1 % 6]
            n1, n2, what = (1 << 20) + s2 * 100, 1 if api == CALLOC else 16, 'size'
        else:
            api, n1, n2, what = self.params(s1, s2, s3)
            if api >= 10:
                api = MALLOC
        self.labels.add('stop:' + kind)
        b = self.pickb(s2, lambda b: b.fam == 'C' and b.size)
        if s3 % 4 == 0 and b is not None and kind != 'mprotect':
            n = n1 if what == 'size' and api != MEMALIGN else U - s2
            return self.expect_stop('r %d 139999 %d 0 0 0' % (b.reg, signed(n)), lambda R: aborted(R))
        fl, fi, ln, _, _ = self.site(api, (s3 >> 2) % 3, s3)
        self.expect_stop('a %d %d %d %d %d %d %d' % (self.nreg, api, fl, signed(n1), signed(n2), fi, ln),
                         lambda R: aborted(R))


class CHECK(Check):
    id = 'C11'
    rule = ('random histories in which requests fail because their size, product or alignment is unrepresentable or no '
            'system can provide it, or because every mapping is refused or limited for a while; outcomes per entry point '
            'and fail-exit setting as documented, earlier blocks verified with guards afterwards, later requests served; '
            'also satisfiable requests beyond 2 and 4 GB. Non-trivial: at least one request failed with another block '
            'live, or the documented stop.')
    quick, thorough = 5000, 80000

    def setup(self):
        self.exe = build.flavours('static', 'shared', 'noleak')

    def strategy(self, tier):
        n = 16 if tier == 'quick' else 40
        return st.fixed_dictionaries({
            'flavour': pick('static', 'static', 'shared', 'noleak'),
            'below': pick(0, 0, 1),
            'align': pick(1, 1, 2, 8, 16, 4096),
            'pf': pick(-1, -1, 0, 64, 4096),
            'maxa': pick(-1, -1, -1, 1500),
            'fx': pick(0, 0, 1, None),
            # the system refuses `count` mappings after the first `skip` ones of the program
            'start': st.one_of(st.none(), st.none(), st.none(), st.none(), st.none(),
                               st.tuples(pick(0, 1, 2, 3, 4, 6), pick(1, 2, 3, 5, 100000)).map(list)),
            'fill': pick(255, 255, -1),
            'fin': st.tuples(pick('none', 'none', 'size', 'refuse', 'mprotect'), I16, I16, I16).map(list),
            'acts': acts('al:5 im:5 ri:2 no:2 sm:1 li:1 fr:2 re:1 hu:1 ca:1 bu:1 fl:1 ve:1', 3, n)})

    def fixed(self):
        out = []
        # bursts that fill the table of blocks while it cannot grow
        for k in range(12):
            out.append({'flavour': ('static', 'noleak', 'shared')[k % 3], 'below': 0, 'align': 1, 'pf': (0, 0, 0, -1)[k % 4],
                        'maxa': -1, 'fx': (0, 0, 1)[k % 3], 'fill': 255,
                        'fin': [('refuse', 'none')[k & 1], 0, 0, 0],
                        'acts': [['al', 5, 3, 9]] + [['bu', 159, 0, 2]] * 31 + [['bu', 10 * k, 0, 2], ['sx', 700, 0, 3],
                                                                 ['al', 5, 3, 9], ['bu', 140, 0, 3], ['ca', 0, 0, 0]]})
        # refusals while the library starts
        for k in range(40):
            out.append({'flavour': ('static', 'noleak', 'shared', 'static')[k % 4], 'below': k >> 1 & 1, 'align': 1,
                        'pf': (-1, 0, 64)[k % 3], 'maxa': (-1, 1500)[k % 5 == 4], 'fx': (0, 1, None)[k % 7 % 3], 'fill': 255,
                        'start': [k // 2 % 4, (1, 2, 1, 3, 100000)[k // 8]], 'fin': ['none', 0, 0, 0],
                        'acts': [['al', 5, 3, 9], ['bu', 159, 0, 2], ['fr', 1, 2, 3], ['no', 1, 2, 3], ['ca', 0, 0, 0]]})
        return out

    def build(self, c):
        h = H(Cfg(align=c['align'], below=c['below'], pf=c['pf'], maxa=c['maxa'], fill=c['fill'],
                  failexit=1 if c['fx'] is None else c['fx']), c['flavour'])
        # exceptions must be available without memory (the C++ library's own concern)
        h.cfg.extra['GLIBCXX_TUNABLES'] = 'glibcxx.eh_pool.obj_count=64'
        if c['fx'] == 1:
            h.cfg.extra['DUMA_MALLOC_FAILEXIT'] = '1'
        if c.get('start'):
            h.cfg.extra['VX_FAIL'] = '%d,%d' % tuple(c['start'])
            h.op('mq')
        h.run_acts(c['acts'])
        bu = {b.reg for bl in h.bursts for b in bl}
        for b in [b for b in h.live() if b.reg not in bu][-20:]:
            h.verify(b)
            h.guard(b)
        h.do_V(0, 0, 0)
        h.do_ca(0, 0, 0)
        h.finish(c['fin'])
        return h

    def run(self, c):
        h = self.build(c)
        R = run.run_script(self.exe[c['flavour']], h.script(), h.cfg.env())
        if c.get('start'):
            h.labels.add('refused at start')
            # nothing can be kept in order before the tables are there: the program is stopped
            if not R.ready:
                return aborted(R, r'(?i)mmap.*failed'), True, h.labels | {'stopped at start'}
        nt = (h.fails > 0 or h.tries > 0) and bool(h.live()) or bool(h.stop)
        return h.judge(R), nt, h.labels | {c['flavour'], 'fx:%s' % c['fx'], 'pf:%d' % c['pf']}
