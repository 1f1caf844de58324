from vlib.engine import Check
from vlib.hist import *
from vlib import build, run


class H(Hist):
    fills = grown = 0

    def fresh(self, b):
        if b.api == STRDUP:
            self.want('is %d' % b.reg, 'is', -1)
            self.adopt(b)
        else:
            f = b.fill
            # what the debugger does not write reads as the system delivers it
            v = 0 if f == -1 else f & 255
            self.want_i(b, v)
        self.want('q %d %d' % (b.reg, b.reg % 3), 'q', b.size)
        self.fills += 1

    def want_i(self, b, v):
        def exp(f):
            if f[-1] != '-1':
                return 'byte %s of a fresh %d-byte block from %s is not %d' % (f[-1], b.size, NAME[b.api], v)
        self.op('i %d 0 %d %d' % (b.reg, b.size, v), exp)

    def resized(self, old, new):
        self.verify(new)
        self.want('q %d %d' % (new.reg, new.reg % 3), 'q', new.size)
        if new.size > old.size:
            self.grown += 1

    def released(self, b):
        if b.size and self.cfg.pf == -1:
            self.want('P %d' % b.reg, 'P', 0, -1)

    def huge_fresh(self, b, new=True):
        super().huge_fresh(b)
        if new:
            for o in (0, b.size // 2, b.size - 300):
                self.op('l %d %d 300 0' % (b.reg, o), lambda f: None if f[2] == '-1' else
                        'byte %s of a fresh block of %d bytes, without fill, is not 0' % (f[2], b.size))

    def do_la(self, s1, s2, s3):
        """up to three megabytes, filled, and resized within that"""
        n = 70000 + (mix(s2) % 2500000 if s2 % 4 else (1 << 17 + (s2 >> 2) % 5) - 70000 + (s2 >> 5) % 3 - 1)
        if self.bytes + 2 * n > self.max_live_bytes or self.larges > 2:
            return
        self.larges += 1
        if s1 % 8 == 6:
            n = min(n, 1 << 20)          # what the executor can duplicate
        b = self.alloc((MALLOC, CALLOC, NEWA, MEMALIGN, REALLOC0, NEW, STRDUP, VALLOC)[s1 % 8], n, 16, fl=s1 // 8 % 2, sel=s3,
                       split=(1, 4, n)[s3 % 3])
        self.bytes += n
        self.fresh(b)
        self.labels.add('large')
        if b.fam == 'C' and s3 % 2:
            self.adopt(b)
            self.write(b, 0, min(n, 300), s3)
            self.write(b, n - 300, 300, s2)
            self.write(b, n * (mix(s3) % 8000) // 8192, 300, s2)
            x = self.resize(b, 70000 + mix(s3) % 2500000 if s3 % 3 else n * 2, fl=s3 // 4 % 2, sel=s2)
            self.bytes += x.size - n
            self.resized(b, x)
            self.released(b)
            b = x
        if s1 % 16 > 3:
            self.release(b, sel=s2)
            self.bytes -= b.size
            self.released(b)
    larges = 0

    def do_fl(self, s1, s2, s3):
        w = s1 % 4
        if w == 0:
            self.switch(align=1 << (s2 % 9))
        elif w == 1:
            self.switch(below=1 - self.below)
        else:
            self.switch(fill=(-1, 0, 255, s3 % 256)[s2 % 4])
            self.labels.add('fill-switch')


class CHECK(Check):
    id = 'C05'
    rule = ('random histories over all entry points and fill settings (environment and switch), with resizes of blocks '
            'partly overwritten; every fresh byte, every byte after a resize, and the usable size through each entry '
            'point compared with the model. Non-trivial: at least two fresh blocks and one resize compared.')
    quick, thorough = 5000, 60000

    def setup(self):
        self.exe = build.flavours('static', 'shared', 'noleak', 'fast')

    def strategy(self, tier):
        n = 26 if tier == 'quick' else 60
        return st.fixed_dictionaries({
            'flavour': pick('static', 'static', 'shared', 'noleak'),
            'below': pick(0, 0, 1),
            'align': pick(1, 1, 2, 4, 8, 16, 64, 4096),
            'pf': pick(-1, -1, -1, 0, 64),
            'freq': pick(0, 0, 1),
            'fill': pick(255, -1, 0, 1, 85, 128, 254),
            'acts': acts('al:8 re:6 wr:5 us:2 fr:2 fl:2 ch:1 bu:1 ve:1 hu:1 la:1', 6, n)})

    def fixed(self):
        # filled, cleared and resized beyond 2 and 4 GB
        G = 1 << 31
        out = []
        for i, x in enumerate([(MALLOC, G + 5000, None), (NEWA, 2 * G + 77, None), (CALLOC, G + 4095, None),
                               (MALLOC, G - 900, 2 * G + 12345), (MALLOC, 2 * G + 1, G + 17), (MEMALIGN, 2 * G + 4000, 2 * G + 9000)]
                              + [(MALLOC, 3 * G + 1, 3 * G + 4097), (NEW, 3 * G, None), (REALLOC0, 2 * G, 2 * G + 1),
                                 (POSIX, G, 100)] * (self.tier == 'thorough')):
            out.append({'flavour': 'fast', 'below': i % 2, 'align': 16, 'pf': (-1, 0)[i // 2 % 2], 'freq': 0, 'fill': 90, 'acts': [],
                        'hf': list(x) + [i]})
        return out

    def build(self, c):
        h = H(Cfg(align=c['align'], below=c['below'], pf=c['pf'], freq=c['freq'], fill=c['fill']),
              'static' if c['flavour'] == 'fast' else c['flavour'])
        if 'hf' in c:
            h.fills += 2
            h.aliased(*c['hf'])
        h.run_acts(c['acts'])
        for b in h.live()[-30:]:
            if b.size < BIG:
                h.verify(b)
            h.want('q %d 0' % b.reg, 'q', b.size)
        return h

    def run(self, c):
        h = self.build(c)
        R = run.run_script(self.exe[c['flavour']], h.script(), h.cfg.env())
        nt = h.fills >= 2 and any(b.resized for b in h.blks)
        return h.judge(R), nt, h.labels | {c['flavour'], 'fill:%d' % c['fill'], 'grown' if h.grown else 'not-grown'}
