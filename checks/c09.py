import collections
from vlib.engine import Check
from vlib.hist import *
from vlib import build, run


class H(Hist):
    reports = 0
    nonempty = 0
    zero = True

    def fresh(self, b):
        pass

    def do_fl(self, s1, s2, s3):
        if s1 % 2:
            self.switch(align=1 << (s2 % 9))
        else:
            self.switch(below=1 - self.below)

    def do_hu(self, s1, s2, s3):
        """a block beyond 2 GB (never touched)"""
        if self.fill != -1 or self.huge >= 2:
            return
        self.huge += 1
        self.alloc((MALLOC, CALLOC, NEWA)[s1 % 3] if s1 % 3 != 1 else MALLOC, (1 << 31 + s2 % 2) + s2 * 5000 + s3, fl=1, sel=s2)
        self.labels.add('huge')
    huge = 0

    def expected(self):
        ls, info, noinfo = [], 0, 0
        for b in self.live():
            if self.cfg.reportall or b.line > 0:
                info += 1
                ls.append(b)
            else:
                noinfo += 1
        return ls, info, noinfo

    def line(self, b):
        a = "\nDUMA: ptr=0x%x size=%d type='%s' " % (self.addr[b.reg], b.size, NAME[b.api])
        return a + ('not freed\n' if self.so else 'alloced from %s(%d) not freed\n' % (b.file, b.line))

    def compare(self, text, exp):
        bl, n, m = exp
        if self.leak:
            if len(bl) > 2000:
                # all in one; their file names are of the executor's own
                got = re.findall(r'\nDUMA: ptr=[^\n]*\n', text)
                if collections.Counter(got) != collections.Counter(self.line(b) for b in bl):
                    return 'the report lists %d blocks and not just the %d live ones' % (len(got), len(bl))
                text = re.sub(r'\nDUMA: ptr=[^\n]*\n', '', text)
                bl = []
            for b in bl:
                l = self.line(b)
                i = text.find(l)
                if i < 0:
                    return 'the report lacks `%s`; report: %s' % (l.strip(), text[:400])
                text = text[:i] + text[i + len(l):]
            want = ''
            if n + m:
                want = ('DUMA: Reported %d leak(s).\nDUMA: There are %d extra leak(s) without allocation information.\n'
                        % (n, m))
        else:
            want = ''
        if text != want:
            return 'the report says `%s` beyond the %d live blocks, expected `%s`' % (text[:400], len(bl), want)

    def do_rp(self, s1, s2, s3):
        if not self.leak:
            return
        exp = self.expected()
        a = self.op('tl')
        self.want('d', 'd', 'ok')
        b = self.op('tl')

        def final(R):
            o = R.log[a].split(), R.log[b].split()
            if o[0][1] != o[1][1]:
                return 'the report went to standard output'
            return self.compare(R.err[int(o[0][2]):int(o[1][2])].decode('latin1'), exp)
        self.final.append(final)
        self.reports += 1
        self.nonempty += bool(exp[0])

    def end(self, kind, code):
        exp = self.expected()
        a = self.op('tl')
        if kind:
            self.op('z %d %d' % (kind - 1, code))
            self.exit = code

        def final(R):
            t = R.err[int(R.log[a].split()[2]):].decode('latin1')
            if R.out:
                return 'unexpected standard output: %r' % R.out[:200]
            return self.compare(t, exp)
        self.final.append(final)
        self.reports += 1
        self.nonempty += bool(exp[0])


class CHECK(Check):
    id = 'C09'
    rule = ('random valid histories over all entry points with and without call sites, zero and huge sizes, resizes, '
            'bursts that grow the block table and budgets; every report (frame ends in between, and the one at exit by '
            'return or exit with any status) is compared in full with the set of live blocks of the model. Non-trivial: '
            'a report with at least one line, after at least one release or resize.')
    quick, thorough = 6000, 80000

    def setup(self):
        self.exe = build.flavours('static', 'shared', 'noleak', 'fast')

    def strategy(self, tier):
        n = 30 if tier == 'quick' else 80
        return st.fixed_dictionaries({
            'flavour': pick('static', 'static', 'static', 'static', 'shared', 'noleak'),
            'below': pick(0, 0, 1),
            'align': pick(1, 1, 2, 8, 16, 4096),
            'pf': pick(-1, -1, -1, 0, 64, 1024),
            'maxa': pick(-1, -1, 2048),
            'freq': pick(0, 0, 1, 7),
            'fill': pick(255, -1),
            'all': pick(0, 0, 1),
            'end': st.tuples(pick(0, 1, 2), st.integers(0, 255)).map(list),
            'acts': acts('al:9 fr:6 re:4 rp:2 wr:1 nf:1 bu:2 be:2 ch:1 ca:1 fl:1 hu:1', 5, n)})

    def fixed(self):
        return [{'flavour': f, 'below': 0, 'align': 1, 'pf': pf, 'maxa': -1, 'freq': 0, 'fill': 255, 'all': a, 'end': [0, 0],
                 'acts': [['bu', 159, k, 8 * 9] for k in (4, 8, 12)] * 2 + [['al', 32 * 2, 80, 1], ['be', 1, 0, 0], ['rp', 0, 0, 0]]}
                for f in ('static', 'shared') for a in (0, 1) for pf in (-1, 0)] + [
            # more blocks than 15 and 16 bits count
            {'flavour': 'fast', 'below': 0, 'align': 1, 'pf': 0, 'maxa': -1, 'freq': 0, 'fill': 255, 'all': a, 'end': [0, 0],
             'acts': [['lots', n, k, 0], ['rp', 0, 0, 0]]}
            for n, a, k in ((33000, 1, 0), (66000, 0, 1))]


    def build(self, c):
        h = H(Cfg(align=c['align'], below=c['below'], pf=c['pf'], maxa=c['maxa'], freq=c['freq'], fill=c['fill'],
                  reportall=c['all']), 'static' if c['flavour'] == 'fast' else c['flavour'])
        h.run_acts(c['acts'])
        h.end(*c['end'])
        return h

    def run(self, c):
        h = self.build(c)
        R = run.run_script(self.exe[c['flavour']], h.script(), h.cfg.env())
        return h.judge(R), h.nonempty > 0 and bool(h.dead()), h.labels | {
            c['flavour'], 'all:%d' % c['all'], 'lines:%d' % min(len(h.expected()[0]), 9), 'end:%d' % c['end'][0]}
