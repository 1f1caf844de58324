from vlib.engine import Check
from vlib.hist import *
from vlib import build, run


class H(Hist):
    probes = 0

    def adopt(self, b):
        pass

    def claim(self, b):
        """nor can the system hand the addresses out for anything else"""
        if self.cfg.pf == -1:
            self.op('cm %d' % b.reg, lambda f: None if f[1] == '-1' else
                    'page %d of a released %d-byte block (%s) is not kept: something else was mapped there' % (
                        int(f[1]) // PAGE, b.size, NAME[b.api]))

    def probe(self, b):
        if self.nreg % 2 or not b.size:
            self.claim(b)
        if not b.size:
            return
        at = len(self.lines)

        def exp(f, b=b, at=at):
            if f[1] == '0':
                return None
            lo = self.addr[b.reg] & -PAGE
            hi = (self.addr[b.reg] + b.size + PAGE - 1) & -PAGE
            if self.cfg.pf != -1:
                # the memory may have been handed out again
                for x in self.blks:
                    p = self.addr.get(x.reg)
                    if x.born is not None and b.died <= x.born < at and p and x is not b \
                            and (p & -PAGE) < hi and lo < (p + x.size + 2 * PAGE) & -PAGE:
                        return None
            return 'byte %s of a released %d-byte block (%s) is accessible' % (f[2], b.size, NAME[b.api])
        self.op('P %d' % b.reg, exp)
        self.probes += 1

    def released(self, b):
        self.probe(b)

    def do_pd(self, s1, s2, s3):
        b = self.pickd(s1)
        if b is not None:
            self.probe(b)
            self.labels.add('late-probe')

    def do_zz(self, s1, s2, s3):
        """blocks of size zero keep their address, too"""
        api = self.apis[s1 % len(self.apis)]
        if api == STRDUP:
            api = MALLOC
        b = self.alloc(api, 0, 16, fl=s2 % 2, sel=s3)
        self.labels.add('zero')
        if s3 % 3:
            self.release(b, fl=0, sel=s2)
            self.released(b)

    def do_mu(self, s1, s2, s3):
        """giving memory back fails for a while (as when a process has too many mappings)"""
        self.op('mu %d %d' % (s1 % 3, (1, 2, 5, 40)[s2 % 4]))
        self.labels.add('munmap fails')

    def do_fl(self, s1, s2, s3):
        if s1 % 2:
            self.switch(align=1 << (s2 % 9))
        else:
            self.switch(below=1 - self.below)

    def finish(self, fin):
        """end with a second release or a check of a released block"""
        k, s1, s2 = fin
        b = self.pickd(s1, lambda b: b.reg is not None)
        if k == 0 or b is None or self.cfg.pf != -1:
            return
        self.labels.add('final')
        if k == 1:
            r = RELS_OF[b.fam][0]
            self.expect_stop('f %d %d 0 0 0' % (b.reg, r), lambda R: aborted(R))
        elif k == 2:
            self.expect_stop('c %d 0' % b.reg, lambda R: aborted(R))
        elif k == 3:
            self.expect_stop('p0 %d' % b.reg, lambda R: None)


class CHECK(Check):
    id = 'C03'
    rule = ('random histories of allocations, resizes, releases through every release path, bursts and churn; every byte '
            'range of a released block is probed right after its release, again at random later points and at the end; '
            'with the default setting no later block may overlap a released one, and a final second release or check of '
            'one has to be stopped. Non-trivial: at least three probes of released blocks with an allocation after one '
            'of the releases.')
    quick, thorough = 3600, 60000
    assumptions = ['x86-64 Linux, 4096-byte pages']

    def setup(self):
        self.exe = build.flavours('static', 'shared', 'noleak')

    def strategy(self, tier):
        n = 28 if tier == 'quick' else 70
        return st.fixed_dictionaries({
            'flavour': pick('static', 'static', 'shared', 'noleak'),
            'below': pick(0, 0, 1),
            'align': pick(1, 1, 2, 4, 8, 16, 64, 4096),
            'pf': pick(-1, -1, -1, -1, 0, 64, 1024, (1 << 32) + 5),
            'freq': pick(0, 0, 1, 7),
            'fill': pick(255, 0, -1),
            'facc': pick(0, 0, 1),
            'fin': st.tuples(pick(1, 0, 2), I16, I16).map(list),
            'acts': acts('al:8 fr:8 re:3 pd:3 wr:1 bu:2 be:2 ch:2 ca:1 fl:1 zz:1 hu:1 mu:1', 6, n)})

    def fixed(self):
        return [{'flavour': f, 'below': b, 'align': 1, 'pf': -1, 'freq': 0, 'fill': 255, 'facc': 0,
                 'fin': [k, 3, 0], 'acts': [['bu', 159, 4, 8 * 9], ['be', 0, 0, 0]] * 4 + [['al', 0, 0, 0], ['fr', 0, 0, 0]]
                 + [['ch', 149, 40, 0]] * 4}
                for f in ('static', 'shared', 'noleak') for b in (0, 1) for k in (1, 2)]

    def build(self, c):
        h = H(Cfg(align=c['align'], below=c['below'], pf=c['pf'], freq=c['freq'], fill=c['fill'], freeacc=c['facc']),
              c['flavour'])
        h.run_acts(c['acts'])
        for b in h.dead()[:12] + h.dead()[12::17]:
            h.probe(b)
        if c['pf'] == -1:
            h.disjoint(True)
        h.finish(c['fin'])
        return h

    def run(self, c):
        h = self.build(c)
        R = run.run_script(self.exe[c['flavour']], h.script(), h.cfg.env())
        d = [b.died for b in h.dead()]
        nt = h.probes >= 3 and bool(d) and any(b.born > min(d) for b in h.blks)
        return h.judge(R), nt, h.labels | {c['flavour'], 'pf:%d' % c['pf'], 'probes:%d' % min(h.probes // 10, 5)}
