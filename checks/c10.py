from vlib.engine import Check
from vlib.hist import *
from vlib import build, run

ZAPIS = [MALLOC, CALLOC, MEMALIGN, POSIX, VALLOC, REALLOC0, NEW, NEWN, NEWA, NEWAN, MNEW, MNEWA]


class H(Hist):
    zeros = used = 0

    def fresh(self, b):
        self.adopt(b)
        self.write(b, 0, min(b.size, 300), b.reg)

    def strat(self, api):
        return self.cfg.z_c if api < 10 else self.cfg.z_cpp

    def do_zz(self, s1, s2, s3):
        api = ZAPIS[s1 % len(ZAPIS)]
        st_ = self.strat(api)
        fl = (s1 >> 4) % 3
        if fl == 2 and api >= 10:
            fl = 0
        if st_ == 0:
            return
        al = 1 << 3 + (s2 % 12)
        b = self.alloc(api, 0, al, fl=fl, sel=s3, split=(0, 1, 5, 1 << 40)[s2 % 4], expect='any')
        if api == CALLOC and s2 % 2:
            # the other factor
            i = len(self.lines) - 1
            w = self.lines[i].split()
            w[4], w[5] = w[5], w[4]
            self.lines[i] = ' '.join(w)
        self.zeros += 1
        self.labels.add('api%d/s%d' % (api, st_))
        i = len(self.lines) - 1
        inner = self.exps[i]

        def exp(f):
            m = inner(f)
            p, rc, exc = map(int, f[1:4])
            if exc:
                return 'zero-size %s threw an exception' % NAME[api]
            if st_ == 1:
                if p:
                    return 'zero-size %s gave %x under strategy 1' % (NAME[api], p)
            else:
                if not p:
                    return 'zero-size %s gave null under strategy %d' % (NAME[api], st_)
                if rc:
                    return 'zero-size %s failed with %d' % (NAME[api], rc)
                if st_ == 2 and self.null_addr is None:
                    self.null_addr = p
                if st_ == 2 and self.null_addr != p:
                    return 'zero-size %s gave %x, not the shared address %x' % (NAME[api], p, self.null_addr)
                if st_ == 3 and p == self.null_addr:
                    return 'zero-size %s gave the shared address under strategy 3' % NAME[api]
            return m
        self.exps[i] = exp
        if st_ == 1:
            b.state = 'failed'
            return
        b.state = 'live'
        b.shared = st_ == 2
        self.around(b)
        if s3 % 2 == 0:
            self.want('q %d %d' % (b.reg, s3 % 3), 'q', 0)
    null_addr = None

    def around(self, b):
        for d in (0, -1, 1, -2048, 2047):
            self.want('p %d %d' % (b.reg, d), 'p', 0)

    def do_pz(self, s1, s2, s3):
        b = self.pickb(s1, lambda b: b.size == 0)
        if b is not None:
            self.around(b)
            self.want('p %d %d' % (b.reg, s2 % 4096 - 2048), 'p', 0)

    def do_cz(self, s1, s2, s3):
        """use a zero-size block in a way a valid program may"""
        b = self.pickb(s1, lambda b: b.size == 0)
        if b is None:
            return
        w = s2 % 4
        if w == 0:
            self.want('c %d %d' % (b.reg, 2 if s3 % 2 else 0), 'c', 'ok')
        elif w == 1:
            self.want('q %d %d' % (b.reg, s3 % 3), 'q', 0)
        elif w == 2:
            self.release(b, fl=self.fls[s3 % len(self.fls)], sel=s2 >> 2)
        elif b.fam == 'C':
            n = self.resize(b, size_of(s3), fl=s3 % 3, sel=s3)
            n.written = False
            self.verify(n)          # reads as zero
        self.used += 1

    def do_fl(self, s1, s2, s3):
        if s1 % 2:
            self.switch(align=1 << (s2 % 9))
        else:
            self.switch(below=1 - self.below)

    def finish(self, s1, s2):
        api = ZAPIS[s1 % 6]
        fl, fi, ln, file, line = self.site(api, s2 % 3, s1)
        pat = '0 bytes'
        if line and self.leak:
            pat += '.*' + re.escape(file) + r'\(%d\)' % line
        n1, n2 = (0, 16) if api in (MEMALIGN, POSIX) else (0, 7) if s2 % 2 else (0, 0)
        if api == CALLOC and s2 % 4 == 0:
            n1, n2 = 9, 0
        self.expect_stop('a %d %d %d %d %d %d %d' % (self.nreg, api, fl, n1, n2, fi, ln), lambda R: aborted(R, pat))


class CHECK(Check):
    id = 'C10'
    rule = ('random histories mixing zero-size requests through every entry point and form with ordinary blocks, under '
            'every pair of strategies (also values outside the documented range, which have to be ignored): null, shared '
            'or distinct address as configured, inaccessible surroundings, usable size, release, resize and checks of '
            'zero-size blocks, disjointness; strategy 0 has to stop the program. Non-trivial: at least two zero-size '
            'blocks of which one is used again, or the stop of strategy 0.')
    quick, thorough = 5000, 80000

    def setup(self):
        self.exe = build.flavours('static', 'shared', 'noleak', 'fast')

    def strategy(self, tier):
        n = 26 if tier == 'quick' else 60
        return st.fixed_dictionaries({
            'flavour': pick('static', 'static', 'shared', 'noleak'),
            'below': pick(0, 0, 1),
            'align': pick(1, 1, 2, 8, 16, 4096),
            'pf': pick(-1, -1, -1, 0, 64),
            'freq': pick(0, 0, 1, 3),
            'zc': pick(None, 3, 2, 2, 1, 0, 4, -1, 7),
            'zn': pick(None, 3, 2, 2, 1, 0, 4, -1),
            'fin': st.tuples(I16, I16).map(list),
            'acts': acts('zz:8 cz:6 al:3 pz:2 fr:2 re:1 ca:2 ck:1 ve:1 bu:1 ch:1 fl:1', 5, n)})

    def fixed(self):
        return [{'flavour': 'fast', 'below': i % 2, 'align': 8, 'pf': -1, 'freq': 0, 'zc': None, 'zn': None, 'fin': [0, 0],
                 'acts': crowd('zz:8 cz:6 al:3 pz:2 fr:2 re:1 ca:1 ck:1', i)} for i in (0, 1)]

    def build(self, c):
        cfg = Cfg(align=c['align'], below=c['below'], pf=c['pf'], freq=c['freq'])
        if c['zc'] is not None:
            cfg.extra['DUMA_MALLOC_0_STRATEGY'] = str(c['zc'])
            if 0 <= c['zc'] <= 3:
                cfg.z_c = c['zc']
        if c['zn'] is not None:
            cfg.extra['DUMA_NEW_0_STRATEGY'] = str(c['zn'])
            if 2 <= c['zn'] <= 3:
                cfg.z_cpp = c['zn']
        h = H(cfg, 'static' if c['flavour'] == 'fast' else c['flavour'])
        h.run_acts(c['acts'])
        for b in h.live():
            if b.size:
                if b.written:
                    h.verify(b)
            else:
                h.want('p %d 0' % b.reg, 'p', 0)
        h.do_ca(0, 0, 0)
        h.disjoint(False)

        def distinct(R):
            cur = {}
            ev = []
            for b in h.blks:
                if b.born is not None and h.addr.get(b.reg) and not b.shared:
                    ev.append((b.born, 1, b))
                    if b.died is not None:
                        ev.append((b.died, 0, b))
            for t, w, b in sorted(ev, key=lambda e: (e[0], e[1])):
                p = h.addr[b.reg]
                if w:
                    if p in cur:
                        return 'op %d: address %x was given out while another live block has it' % (t, p)
                    cur[p] = b
                elif cur.get(p) is b:
                    del cur[p]
        h.final.append(distinct)
        if h.cfg.z_c == 0:
            h.finish(*c['fin'])
        return h

    def run(self, c):
        h = self.build(c)
        R = run.run_script(self.exe[c['flavour']], h.script(), h.cfg.env())
        return h.judge(R), (h.zeros >= 2 and h.used >= 1) or bool(h.stop), h.labels | {c['flavour'], 'zc:%s' % c['zc'], 'zn:%s' % c['zn']}
