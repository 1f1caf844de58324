from vlib.engine import Check
from vlib.hist import *
from vlib import build, run


class H(Hist):
    def fresh(self, b):
        self.alcheck(b)

    def resized(self, old, new):
        self.alcheck(new)

    def alcheck(self, b):
        al = b.align
        if b.api in (MEMALIGN, POSIX):
            self.labels.add('explicit>page' if al > PAGE else 'explicit')

        def final(R, b=b, al=al):
            p = self.addr.get(b.reg)
            if p and p % al:
                return '%s of %d bytes at %x is not aligned to %d (%s mode)' % (
                    NAME[b.api], b.size, p, al, 'below' if b.below else 'above')
        self.final.append(final)

    def do_bg(self, s1, s2, s3):
        """explicit alignments of all powers"""
        lg = s3 % 22
        api = (MEMALIGN, POSIX)[s1 % 2]
        if api == POSIX:
            lg = max(3, lg)
        b = self.alloc(api, size_of(s2) if s2 % 16 else 0, 1 << lg, fl=(s1 >> 2) % 3, sel=s1)
        if b.size:
            self.fresh(b)
        else:
            b.state = 'zero'

    def do_fl(self, s1, s2, s3):
        if s1 % 3:
            self.switch(align=1 << (s2 % 14))
        else:
            self.switch(below=1 - self.below)

    def do_ei(self, s1, s2, s3):
        """posix_memalign with an unusable alignment: EINVAL, nothing allocated, nothing printed"""
        v = (0, 1, 2, 4, 3, 5, 6, 7, 9, 12, 24, 48, 100, 4095, 4097, 12288, 1 << 20 | 8, 3 << 32, (1 << 40) + 8)
        al = v[s1 % len(v)] if s2 % 3 else (s3 | 1) + 2
        t = self.op('tl')
        m = self.op('M')
        fl = 0 if s2 % 2 else 2
        fl, fi, ln, _, _ = self.site(POSIX, fl, s3)
        r = self.nreg
        self.nreg += 1

        def exp(f):
            if f[2] != '22' or int(f[1]) != 0x5A5A5A50:
                return 'posix_memalign with alignment %d gave %s and pointer %x, not EINVAL and an untouched pointer' % (
                    al, f[2], int(f[1]))
        self.op('a %d 3 %d %d %d %d %d' % (r, fl, size_of(s3), al, fi, ln), exp)
        m2 = self.op('M')
        t2 = self.op('tl')

        def final(R):
            if R.log[t] != R.log[t2] or R.log[m].split()[:4] != R.log[m2].split()[:4]:
                return 'a rejected posix_memalign allocated or printed something'
        self.final.append(final)
        self.labels.add('einval')

    def finish(self, fin):
        k, s1, s2 = fin
        if k == 0:
            return
        bad = (3, 5, 6, 7, 12, 24, 100, 4095, 4097, 6000, 12288, 65537, 3 << 32, (1 << 40) + 16, 6 << 33)[s1 % 15] if s2 % 4 \
            else 2 * (s1 % 5000) + 3
        if bad & (bad - 1) == 0:
            bad += 1
        self.labels.add('stop')
        if k == 1:
            size = 1 + s2 % 9000
            fl, fi, ln, file, line = self.site(MEMALIGN, (s1 >> 4) % 3, s1)
            api, n2 = MEMALIGN, bad
        else:
            bad = bad % 100000
            bad += bad & (bad - 1) == 0
            bad = max(bad, 3)
            self.switch(align=bad)
            size = bad + s2 % 9000
            api = self.apis[(s1 >> 3) % len(self.apis)]
            if api in (MEMALIGN, POSIX, VALLOC):
                api = MALLOC
            n2 = 1 if api == CALLOC else 0
            fl, fi, ln, file, line = self.site(api, (s1 >> 9) % 2, s1)
        pat = r'power of 2'
        if bad < 1 << 31:
            pat = r'%d\b.*power of 2' % bad
        if line and self.leak:
            pat += r'.*' + re.escape(file) + r'\(%d\)' % line
        self.expect_stop('a %d %d %d %d %d %d %d' % (self.nreg, api, fl, size - (api == STRDUP), n2, fi, ln),
                         lambda R: aborted(R, pat))


class CHECK(Check):
    id = 'C06'
    rule = ('random histories over all entry points with default alignments from the environment and switches, explicit '
            'alignments up to 2 MB, both protection modes; every address returned is compared with the alignment the '
            'model computes; unusable POSIX alignments must give EINVAL without effect and other unusable alignments '
            'stop the program naming them. Non-trivial: at least two different alignments above 1 occur, or the case '
            'ends in a rejection.')
    quick, thorough = 5000, 60000

    def setup(self):
        self.exe = build.flavours('static', 'shared', 'noleak', 'fast')

    def strategy(self, tier):
        n = 26 if tier == 'quick' else 60
        return st.fixed_dictionaries({
            'flavour': pick('static', 'static', 'shared', 'noleak'),
            'below': pick(0, 0, 1),
            'align': pick(1, 2, 4, 8, 16, 32, 64, 128, 4096, 8192),
            'pf': pick(-1, -1, -1, 0, 64),
            'fx': pick(1, 1, 0),
            'fin': st.tuples(pick(0, 1, 2), I16, I16).map(list),
            'acts': acts('al:8 bg:6 re:2 fr:2 fl:3 ei:2 bu:1', 6, n)})

    def fixed(self):
        # alignments beyond 32 bits
        return [{'flavour': 'fast', 'below': i % 2, 'align': 8, 'pf': -1, 'fx': 1, 'fin': [0, 0, 0], 'acts': [], 'wide': x}
                for i, x in enumerate([[31, MEMALIGN, 100], [32, POSIX, 5000], [32, MEMALIGN, 10]] +
                                      [[33, MEMALIGN, 1 << 20], [33, POSIX, 3]] * (self.tier == 'thorough'))]

    def build(self, c):
        h = H(Cfg(align=c['align'], below=c['below'], pf=c['pf'], failexit=c['fx'], show=1),
              'static' if c['flavour'] == 'fast' else c['flavour'])
        if 'wide' in c:
            lg, api, size = c['wide']
            h.want('al %d' % (1 << 30), 'al')
            b = h.alloc(api, size, 1 << lg)
            h.fresh(b)
            h.adopt(b)
            h.release(b)
            h.labels.add('alignment 2^%d' % lg)
        h.run_acts(c['acts'])
        for bl in h.bursts:
            for b in bl:
                h.alcheck(b)
        h.finish(c['fin'])
        return h

    def run(self, c):
        h = self.build(c)
        R = run.run_script(self.exe[c['flavour']], h.script(), h.cfg.env())
        nt = len({b.align for b in h.blks if b.align > 1}) >= 2 or bool({'stop', 'einval'} & h.labels)
        m = h.judge(R)
        if not m and h.stop:
            for f in h.final:
                m = m or f(R)
        return m, nt, h.labels | {c['flavour']}
