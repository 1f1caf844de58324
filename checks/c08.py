from vlib.engine import Check
from vlib.hist import *
from vlib import build, run


class H(Hist):
    slacks = 0
    max_align_log = 17
    mixed = False

    def fresh(self, b):
        self.adopt(b)
        self.look(b)

    def resized(self, old, new):
        self.look(new)

    def look(self, b):
        if not b.size:
            return
        val = self.cfg.slack & 255

        def exp(f):
            if f[1] != '0':
                return 'the accessible byte at offset %s outside a %d-byte block (%s, alignment %d) is not the slack fill' % (
                    f[1], b.size, NAME[b.api], b.align)
        self.op('dm %d -1 0 %d %d' % (b.reg, val, self.wide(b)), exp)
        self.slacks += 1

    def wide(self, b):
        """how far the accessible pages around a block are its own"""
        return 0 if self.mixed else 2 if b.below else 1

    def huge_fresh(self, b, new=True):
        self.look(b)

    def do_lo(self, s1, s2, s3):
        b = self.pickb(s1)
        if b is not None:
            self.look(b)

    def do_ba(self, s1, raw, s2):
        """aligned to 8 KB up to 128 KB"""
        size = 1 + size_of(raw) % 20000
        if self.bytes + size > self.max_live_bytes:
            return
        b = self.alloc((MEMALIGN, POSIX)[s1 % 2], size, 1 << 13 + s2 % 5, fl=self.fls[(s1 >> 5) % len(self.fls)],
                       sel=(s1 >> 3) ^ s2)
        self.bytes += b.size
        self.fresh(b)
        self.labels.add('aligned')

    def do_fl(self, s1, s2, s3):
        if s1 % 2:
            self.switch(align=1 << (s2 % 10))
        elif self.mixed:
            self.switch(below=1 - self.below)

    def finish(self, fin):
        kind, s1, s2, s3 = fin
        if kind == 'none':
            return
        b = None
        if s1 % 3 == 0:
            b = self.pickb(s1 // 3, lambda b: b.size > 0 and b.align > PAGE)
        b = b or self.pickb(s1, lambda b: b.size > 0 and (b.size % PAGE or b.align > PAGE))
        if b is None:
            return
        self.labels.add('fin:' + kind)
        slack = self.cfg.slack & 255
        val = (slack + 1 + s2 % 255) & 255 if s2 % 3 else slack ^ (1 << s2 % 8)
        at = self.op('dm %d %d %d %d %d' % (b.reg, s3 if s3 % 2 else mix(s3) >> 4, val, slack, self.wide(b)),
                     lambda f: None if f[1] == '0' else 'slack was damaged before')
        fl = (s2 >> 3) % 4
        if kind == 'free':
            r = RELS_OF[b.fam][s2 % len(RELS_OF[b.fam])]
            fl, fi, ln, _, _ = self.rel_site(r, fl, s2)
            text = 'f %d %d %d %d %d' % (b.reg, r, fl, fi, ln)
        elif kind == 'resize':
            if b.fam == 'C':
                fl, fi, ln, _, _ = self.site(REALLOC0, fl % 3, s2)
                text = 'r %d %d %d %d %d %d' % (b.reg, self.nreg, size_of(s1), fl, fi, ln)
            else:
                text = 'c %d 0' % b.reg
        elif kind == 'check':
            text = 'c %d %d' % (b.reg, fl & 2)
        elif kind == 'all':
            text = 'k %d' % (fl & 2)
        else:
            if not self.cfg.freq:
                text = 'k 0'
            else:
                # at most N allocations or releases may still succeed
                style, text, s = s3 % 4, [], s2
                others = [x for x in self.live() if x is not b]
                for i in range(self.cfg.freq):
                    s = (s * 1103515245 + 12345) & 0x7fffffff
                    r = self.nreg
                    x = others[s % len(others)] if others else None
                    if x and (style == 1 or style == 0 and s & 0x30000 == 0x10000):
                        others.remove(x)
                        rs = RELS_OF[x.fam]
                        text.append('f %d %d 0 0 0' % (x.reg, rs[(s >> 8) % len(rs)]))
                    elif x and x.fam == 'C' and (style == 2 or style == 0 and s & 0x30000 == 0x20000):
                        # to nothing: a release and nothing else
                        n = 0 if style == 2 or s & 0x40000 else 1 + (s >> 8) % 5000
                        text.append('r %d %d %d %d 0 0' % (x.reg, x.reg if not n else r, n, (0, 2)[(s >> 7) % 2]))
                        others.remove(x)
                        self.nreg += n > 0
                    else:
                        text.append('a %d %d 0 %d %d 0 0' % (r, (MALLOC, NEW, CALLOC, NEWA)[s % 4], 8 + s % 50, 1))
                        self.nreg += 1
                self.labels.add('style:%d' % style)

        def chk(R):
            f = R.log[at].split()
            side = f[3]
            t = R.err.decode('latin1')
            pat = [re.escape('%x' % self.addr[b.reg]), side + ' userSpace']
            if self.leak:
                pat.append(r'size=%d\b' % b.size)
                pat.append(re.escape(b.file) + r'\(%d\)' % b.line)
            for p in pat:
                m = aborted(R, p)
                if m:
                    return 'damage %s a block at offset %s: %s' % (side, f[4], m)
        self.expect_stop(text, chk, lambda R: R.log.get(at, 'dm 0 0 none 0').split()[3] == 'none')


class CHECK(Check):
    id = 'C08'
    rule = ('random valid histories whose slack is compared byte by byte with the configured fill and which no check may '
            'stop, then one byte of one block\'s slack (any position, any other value) is changed: release, resize, '
            'manual check, global check or at most N further allocations and releases under check frequency N must be '
            'stopped, naming block, size, origin and side. Non-trivial: ends in damage, or three slacks compared.')
    quick, thorough = 5000, 80000

    def setup(self):
        self.exe = build.flavours('static', 'shared', 'noleak', 'fast')

    def strategy(self, tier):
        n = 20 if tier == 'quick' else 60
        return st.fixed_dictionaries({
            'flavour': pick('static', 'static', 'static', 'shared', 'noleak'),
            'below': pick(0, 0, 1),
            'mixed': pick(0, 1),
            'align': pick(1, 2, 4, 8, 16, 64, 4096),
            'pf': pick(-1, -1, -1, 0, 64),
            'freq': pick(0, 0, 1, 2, 5, 40, 0, 1, 2, 5, 40, 300),
            'slack': pick(0xAA, 0, 1, 255, 85, 300, -1, 0x1AA),
            'fill': pick(255, -1, 0xAA, 0),
            'fin': st.tuples(pick('free', 'check', 'all', 'freq', 'resize', 'freq', 'none'), I16, I16, I16).map(list),
            'acts': acts('al:9 fr:3 re:3 wr:3 lo:2 ck:2 ca:2 bu:1 be:1 ch:1 fl:1 hu:1 ba:1', 4, n)})

    def fixed(self):
        return [{'flavour': 'fast', 'below': i % 2, 'mixed': 0, 'align': 8, 'pf': -1, 'freq': 0, 'slack': 0xAA, 'fill': 255,
                 'fin': [k, 17 + i, 9 * i, i], 'acts': crowd('al:9 fr:3 re:3 wr:3 lo:2 ck:2 ca:1', i)}
                for i, k in enumerate(('free', 'all', 'none', 'check'))]

    def build(self, c):
        h = H(Cfg(align=c['align'], below=c['below'], pf=c['pf'], freq=c['freq'], slack=c['slack'], fill=c['fill']),
              'static' if c['flavour'] == 'fast' else c['flavour'])
        h.mixed = bool(c['mixed'])
        h.run_acts(c['acts'])
        h.do_ca(0, 0, 0)
        h.finish(c['fin'])
        return h

    def run(self, c):
        h = self.build(c)
        R = run.run_script(self.exe[c['flavour']], h.script(), h.cfg.env())
        return h.judge(R), bool(h.stop) or h.slacks >= 3, h.labels | {c['flavour'], 'freq:%d' % c['freq']}
