from vlib.engine import Check
from vlib.hist import *
from vlib import build, run


class H(Hist):
    def fresh(self, b):
        self.adopt(b)
        self.guard(b)

    def resized(self, old, new):
        self.guard(new)

    def huge_fresh(self, b, new=True):
        self.guard(b)

    def do_fl(self, s1, s2, s3):
        if s1 % 3 == 0:
            self.switch(align=1 << (s2 % 9))
        else:
            self.switch(below=1 - self.below)
            self.labels.add('mode-switch')

    def do_ba(self, s1, s2, s3):
        """explicit alignment of a page and more, then its neighbours' guards"""
        size = size_of(s2)
        if s2 % 4 == 3 and self.bytes < self.max_live_bytes // 2:
            size = (1 << 20) - PAGE * (s2 % 5) + (s2 >> 4) % 100     # a mapping of its own
            self.bytes += size
        b = self.alloc((MEMALIGN, POSIX)[s1 % 2], size, PAGE << (s3 % 4), fl=(s1 >> 2) % 3, sel=s1)
        self.nalloc += 1
        self.labels.add('big-align')
        self.fresh(b)
        for x in self.live()[-4:-1]:
            self.guard(x)
        c = self.alloc(MALLOC, 1 + s2 % 300)
        self.fresh(c)
        self.guard(b)
        if s3 % 5 == 0:
            self.release(c)
            self.guard(b)


class CHECK(Check):
    id = 'C02'
    rule = ('random histories with below-protection on from the environment or switched at run time, all entry points, '
            'alignments up to 32 kB, resizes, releases, bursts, churn; guards of every block probed at birth, at random '
            'points and at the end, for the mode it was allocated under. Non-trivial: at least three guards of blocks in '
            'below mode probed, and a release, resize or mode switch happened.')
    quick, thorough = 5000, 60000
    assumptions = ['x86-64 Linux, 4096-byte pages']

    def setup(self):
        self.exe = build.flavours('static', 'shared', 'noleak')

    def strategy(self, tier):
        n = 26 if tier == 'quick' else 60
        return st.fixed_dictionaries({
            'flavour': pick('static', 'static', 'shared', 'noleak'),
            'below': pick(1, 1, 1, 1, 0),
            'align': pick(1, 1, 1, 2, 4, 8, 16, 64, 4096, 8192),
            'pf': pick(-1, -1, 0, 64, 1024),
            'freq': pick(0, 0, 1, 7),
            'fill': pick(255, 0, -1),
            'acts': acts('al:9 gu:4 re:3 fr:4 ba:2 wr:2 fl:3 bu:1 be:1 ch:1 ca:1 hu:1', 6, n)})

    def build(self, c):
        h = H(Cfg(align=c['align'], below=c['below'], pf=c['pf'], freq=c['freq'], fill=c['fill']), c['flavour'])
        h.run_acts(c['acts'])
        for b in h.live()[-25:]:
            h.guard(b)
        for bl in h.bursts[:2]:
            for b in (bl[0], bl[len(bl) // 2]):
                if b.state == 'live':
                    h.guard(b)
        return h

    def run(self, c):
        h = self.build(c)
        R = run.run_script(self.exe[c['flavour']], h.script(), h.cfg.env())
        n = sum(1 for l in h.lines if l.startswith('g '))
        nt = n >= 3 and 'guard-below' in h.labels and (bool(h.dead()) or 'mode-switch' in h.labels)
        return h.judge(R), nt, h.labels | {c['flavour'], 'guards:%d' % min(n // 10, 5)}
