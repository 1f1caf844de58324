from vlib.engine import Check
from vlib.hist import *
from vlib import build, run


class H(Hist):
    def fresh(self, b):
        self.adopt(b)
        self.guard(b)

    def resized(self, old, new):
        self.guard(new)

    def huge_fresh(self, b, new=True):
        self.guard(b)


class CHECK(Check):
    id = 'C01'
    rule = ('random histories of allocations through every C and C++ entry point, resizes, releases, bursts that grow '
            'the block table, churn, with below-protection off; after every allocation and again at random points and '
            'at the end every byte of the block and of the page after it is probed. Non-trivial: at least three guards '
            'of live blocks probed, one of them after another block was released or resized.')
    quick, thorough = 5000, 60000
    assumptions = ['x86-64 Linux, 4096-byte pages']

    def setup(self):
        self.exe = build.flavours('static', 'shared', 'noleak')

    def strategy(self, tier):
        n = 26 if tier == 'quick' else 60
        return st.fixed_dictionaries({
            'flavour': pick('static', 'static', 'shared', 'noleak'),
            'align': pick(1, 1, 1, 2, 4, 8, 16, 64, 4096),
            'pf': pick(-1, -1, 0, 64, 1024),
            'freq': pick(0, 0, 1, 7),
            'fill': pick(255, 0, -1),
            'acts': acts('al:9 gu:4 re:3 fr:4 wr:2 bu:1 be:1 ch:1 ca:1 hu:1 fl:1', 6, n)})

    def build(self, c):
        h = H(Cfg(align=c['align'], pf=c['pf'], freq=c['freq'], fill=c['fill']), c['flavour'])
        h.do_fl = lambda s1, s2, s3: h.switch(align=1 << (s2 % 9)) if s1 % 2 else h.switch(fill=(-1, 0, 7)[s2 % 3])
        h.run_acts(c['acts'])
        for b in h.live()[-25:]:
            h.guard(b)
        for bl in h.bursts[:2]:
            for b in (bl[0], bl[len(bl) // 2]):
                if b.state == 'live':
                    h.guard(b)
        return h

    def run(self, c):
        h = self.build(c)
        R = run.run_script(self.exe[c['flavour']], h.script(), h.cfg.env())
        n = sum(1 for l in h.lines if l.startswith('g '))
        nt = n >= 3 and bool(h.dead())
        return h.judge(R), nt, h.labels | {c['flavour'], 'guards:%d' % min(n // 10, 5)}
