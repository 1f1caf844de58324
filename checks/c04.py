from vlib.engine import Check
from vlib.hist import *
from vlib import build, run


class H(Hist):
    def fresh(self, b):
        if b.size <= 40000:
            self.write(b, 0, b.size, b.reg)
        else:
            self.adopt(b)
            self.write(b, 0, 200, b.reg)
            self.write(b, b.size - 200, 200, b.reg)

    def do_zz(self, s1, s2, s3):
        """zero-size requests in between"""
        b = self.alloc(self.apis[s1 % len(self.apis)] if s1 % len(self.apis) != 7 else MALLOC, 0, 16)
        b.state = 'zero'

    def do_fl(self, s1, s2, s3):
        if s1 % 2:
            self.switch(align=1 << (s2 % 9))
        else:
            self.switch(below=1 - self.below)

    def do_bg(self, s1, s2, s3):
        """some large blocks, released again: room for whole memory pools"""
        n = 1 + s1 % 4
        bs = []
        for i in range(n):
            size = (700 << 10) + (s2 % 60) * 20000
            if self.bytes + size > self.max_live_bytes:
                break
            b = self.alloc((MALLOC, NEW, NEWA, MEMALIGN)[s1 // 4 % 4], size, 1 << s3 % 13, fl=0)
            self.bytes += size
            self.fresh(b)
            bs.append(b)
        for b in bs[:len(bs) - (s3 % 5 == 0)]:
            self.release(b, fl=0, sel=s3)
            self.bytes -= b.size
        self.labels.add('big')

    def do_mv(self, s1, s2, s3):
        """a released block moves its neighbours' turn: many blocks of all sizes, every other one released"""
        bs = []
        for i in range(4 + s1 % 20):
            size = 1 + (s2 * (i + 1) * 977 + s3) % (1 << 12 + s3 % 5)
            if self.bytes + size > self.max_live_bytes:
                break
            b = self.alloc(MALLOC, size, fl=0)
            self.bytes += size
            self.fresh(b)
            bs.append(b)
        for b in bs[s3 & 1::2]:
            self.release(b, fl=0, sel=s3)
            self.bytes -= b.size


class CHECK(Check):
    id = 'C04'
    rule = ('random histories that keep many blocks filled with distinct patterns alive while others are allocated, '
            'resized, released, checked and reported, the bookkeeping grows, budgets force reclaims and the system hands unmapped '
            'addresses out again; every address '
            'range is compared with all live ones, contents are verified at random points and all at the end. '
            'Non-trivial: at least four patterned blocks verified after another block was released or resized.')
    quick, thorough = 5000, 60000

    def setup(self):
        self.exe = build.flavours('static', 'shared', 'noleak', 'fast')

    def strategy(self, tier):
        n = 30 if tier == 'quick' else 80
        return st.fixed_dictionaries({
            'flavour': pick('static', 'static', 'shared', 'noleak'),
            'below': pick(0, 0, 1),
            'align': pick(1, 1, 2, 4, 8, 16, 64, 4096),
            'pf': pick(-1, -1, 0, 16, 64, 512, 2048),
            'maxa': pick(-1, -1, -1, 1024, 2048, 4096),
            'freq': pick(0, 0, 0, 1, 7),
            'facc': pick(0, 0, 1),
            'reuse': pick(0, 1, 1),
            'acts': acts('al:9 fr:5 re:4 wr:2 ve:3 bu:2 be:1 ch:2 ca:1 ck:1 us:1 zz:1 nf:1 df:1 fl:1 V:1 bg:2 mv:2 hu:1', 6, n)})

    def fixed(self):
        return [{'flavour': f, 'below': 0, 'align': 1, 'pf': pf, 'maxa': m, 'freq': 0, 'facc': 0, 'reuse': 1,
                 'acts': [['bu', 159, 4, 8 * 9]] * 4 + [['ch', 149, s, 0]] * 3 + [['bu', 159, 8, 8 * 3]] + [['be', 1, 0, 0]] +
                 [['ch', 149, s, 0]] * 3 + [['V', 0, 0, 0]]}
                for f in ('static', 'shared') for pf in (-1, 64) for m in (-1, 2048) for s in (40, 4 + 8 * 500)] + [
            {'flavour': 'fast', 'below': i, 'align': 8, 'pf': (-1, 64)[i], 'maxa': -1, 'freq': 0, 'facc': 0, 'reuse': 1,
             'acts': crowd('al:9 fr:5 re:4 wr:2 ve:3 ch:1 ca:1 ck:1 us:1 zz:1 bg:2', i)} for i in (0, 1)]

    def build(self, c):
        h = H(Cfg(align=c['align'], below=c['below'], pf=c['pf'], maxa=c['maxa'], freq=c['freq'], freeacc=c['facc']),
              'static' if c['flavour'] == 'fast' else c['flavour'])
        if c['reuse']:
            h.op('mr 1')
        h.run_acts(c['acts'])
        for b in h.live():
            if b.size < BIG and not any(b in bl for bl in h.bursts):
                h.verify(b)
        h.do_V(0, 0, 0)
        h.op('mr 1')
        h.disjoint(False)
        return h

    def run(self, c):
        h = self.build(c)
        R = run.run_script(self.exe[c['flavour']], h.script(), h.cfg.env())
        d = [b.died for b in h.dead()]
        nt = bool(d) and sum(1 for b in h.live() if b.born < max(d)) >= 4
        if any(r.startswith('mr ') and r != 'mr 0' for r in R.log.values()):
            h.labels.add('addresses-reused')
        return h.judge(R), nt, h.labels | {c['flavour'], 'pf:%d' % c['pf'], 'maxa:%d' % c['maxa'],
                                           'live:%d' % min(len(h.live()) // 20, 10)}
