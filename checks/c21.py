import os
from vlib.engine import Check
from vlib.hist import *
from vlib import build, run
from checks.c15 import H as Talk, ZERO

STATS = re.compile(r'\nDUMA:   Allocation\(s\): (\d+)\nDUMA: Deallocation\(s\): (\d+)\n')
TRACE = re.compile(r'\nDUMA: (Allocating|Freeing) (\d+) byte\(s\)')
# the growth of the table of blocks is the debugger's own
OWN = re.compile(r'\nDUMA: (?:Allocating|Freeing) (\d+) byte\(s\)(?: at [^\n]*?duma\.c\(\d+\)(?: \(Allocated from [^\n]*?duma\.c\(\d+\)\))?)?\.')
START = re.compile(r'\nDUMA: Allocating 123 byte\(s\)[^\n]*\nDUMA: Freeing 123 byte\(s\)'
                   r'(?: at (?:UNKNOWN \(use #include "duma.h"\)\(\d+\)|[^\n(]*\(\d+\)) '
                   r'\(Allocated from (?:UNKNOWN \(use #include "duma.h"\)\(\d+\)|[^\n(]*\(\d+\))\))?\.')


class H(Talk):
    grown = 0

    def note_burst(self, bl):
        for b in bl:
            self.note_alloc(b.size, b.file, b.line)

    def do_bu(self, s1, s2, s3):
        n = len(self.bursts)
        super().do_bu(s1, s2, s3)
        if len(self.bursts) > n:
            self.note_burst(self.bursts[-1])

    def do_be(self, s1, s2, s3):
        if not self.bursts:
            return
        bl = [b for b in self.bursts[s1 % len(self.bursts)] if b.state == 'live']
        super().do_be(s1, s2, s3)
        for b in bl:
            r = RELS_OF[b.fam]
            api = r[s2 % len(r)]
            self.note_free(b, UNK if api < 10 else '' if api in (14, 15) else None, 0)

    def do_ch(self, s1, s2, s3):
        n, size = 1 + s1 % 90, 1 + size_of(s2) % 9000
        self.want('y %d %d' % (n, size), 'y', -1)
        b = Blk()
        b.size, b.file, b.line = size, UNK, 0
        for i in range(n):
            self.note_alloc(size, UNK, 0)
            self.note_free(b, UNK, 0)

    def do_lots(self, s1, s2, s3):
        """more calls than 16 bits count"""
        n, size = s1, 1 + s2
        self.want('y %d %d' % (n, size), 'y', -1)
        b = Blk()
        b.size, b.file, b.line = size, UNK, 0
        for i in range(n):
            self.note_alloc(size, UNK, 0)
            self.note_free(b, UNK, 0)

    def do_big(self, s1, s2, s3):
        """sizes of up to a few megabytes, any alignment"""
        api = self.apis[s1 % len(self.apis)]
        if api == STRDUP:
            api = MALLOC
        b = self.alloc(api, 1 + (s2 * s3) % 3000000, 1 << (3 + (s2 >> 3) % 12), fl=self.fls[(s1 >> 5) % len(self.fls)], sel=s2)
        self.note_alloc(b.size, b.file, b.line)
        self.adopt(b)
        self.write(b, 0, min(b.size, 100), b.reg)

    def do_nu(self, s1, s2, s3):
        act = (0, 10, 11, 12, 13, 14, 15)[s1 % 7]
        self.want('x %d 3 0 0 0 0 %d 0' % (act, 1 + s3), 'x', 0, 'ok')
        self.labels.add('null')

    def do_rz(self, s1, s2, s3):
        """resize to nothing: a release"""
        b = self.pickb(s1, lambda b: b.fam == 'C' and b.size)
        if b is None:
            return
        fl, fi, ln, file, line = self.site(REALLOC0, (0, 1, 2)[s3 % 3], s3)
        b.state = 'dead'
        b.died = len(self.lines)
        b.relfile, b.relline = file, line
        self.op('r %d 139999 0 %d %d %d' % (b.reg, fl, fi, ln),
                lambda f: None if f[1] == '0' else 'resizing to 0 gave %s' % f[1])
        self.note_free(b, file, line)
        self.labels.add('resize to 0')

    def do_ei(self, s1, s2, s3):
        """requests refused for their arguments"""
        self.op('a 139998 3 0 %d %d 0 0' % (1 + s3 % 5000, (0, 3, 4, 24, 7, 12)[s2 % 6]))

    def trace(self, t):
        """everything printed with the trace on -> error"""
        pos = 0
        m = START.match(t)
        if not m:
            return 'no trace of the start-up calls: `%s`' % t[:200]
        pos = m.end()

        def skip_own(pos):
            while True:
                m = OWN.match(t, pos)
                if not m or int(m.group(1)) % PAGE or not int(m.group(1)):
                    return pos
                self.grown += 1
                pos = m.end()
        for e in self.ev:
            if e[1] is not None:
                w = re.compile(e[1])
                m = w.match(t, pos)
                while not m:
                    q = skip_one(t, pos)
                    if q is None:
                        return 'expected `%s`, but the next thing printed is `%s`' % (e[1], t[pos:pos + 250])
                    self.grown += 1
                    pos = q
                    m = w.match(t, pos)
                pos = m.end()
                continue
            pos = skip_own(pos)
            ls, n, k = e[2]
            want = {}
            for b in ls:
                l = self.line(b)
                want[l] = want.get(l, 0) + 1
            for i in range(len(ls)):
                j = t.find(' not freed\n', pos)
                l = t[pos:j + 11]
                if want.get(l, 0) < 1:
                    return 'the report goes on with `%s`' % t[pos:pos + 250]
                want[l] -= 1
                pos = j + 11
            if n + k:
                w = ('DUMA: Reported %d leak(s).\nDUMA: There are %d extra leak(s) without allocation information.\n'
                     % (n, k))
                if not t.startswith(w, pos):
                    return 'expected `%s`, but the next thing printed is `%s`' % (w, t[pos:pos + 250])
                pos += len(w)
            m = STATS.match(t, pos)
            if not m:
                return 'no statistics where expected: `%s`' % t[pos:pos + 250]
            c = {'Allocating': 0, 'Freeing': 0}
            for x in TRACE.finditer(t, 0, pos):
                c[x.group(1)] += 1
            got = (int(m.group(1)), int(m.group(2)))
            if got != (c['Allocating'], c['Freeing']):
                return 'the statistics say %d allocations and %d deallocations, but %d and %d were printed' % (
                    got + (c['Allocating'], c['Freeing']))
            pos = m.end()
        pos = skip_own(pos)
        if pos != len(t):
            return 'something more is printed: `%s`' % t[pos:pos + 300]


def skip_one(t, pos):
    m = OWN.match(t, pos)
    if m and int(m.group(1)) and int(m.group(1)) % PAGE == 0:
        return m.end()


def neutral(h, R):
    """what the program observed, without the addresses themselves"""
    out = []
    for i in range(len(h.lines)):
        w = h.lines[i].split()
        r = R.log.get(i, '')
        # where the accessible memory ends beyond the unprotected side of a block is up to the kernel (what lies on the
        # protected side is judged in both runs); "tl" asks the machine
        if w and w[0] in ('tl', 'g', 'dm'):
            continue
        out.append(re.sub(r'\b\d{12,}\b', 'P', r))
    return out


class CHECK(Check):
    id = 'C21'
    rule = ('random histories over all entry points with and without positions, zero sizes under every strategy, resizes '
            'including to zero, null releases, refused arguments, bursts, churn and reports, run twice: with the trace on, '
            'everything printed is compared with the calls made line by line and the statistics with the lines printed; '
            'with it off nothing but reports may be printed and all results must be the same. Non-trivial: at least five '
            'trace lines of at least two kinds of entry points and a release.')
    quick, thorough = 5000, 60000
    assumptions = ['single-threaded', 'requests that fail are not traced in a specified way']

    def setup(self):
        self.exe = build.flavours('static', 'shared', 'noleak', 'getenv')

    def strategy(self, tier):
        n = 20 if tier == 'quick' else 50
        return st.fixed_dictionaries({
            'flavour': pick('static', 'static', 'noleak', 'shared', 'getenv'),
            'below': pick(0, 0, 1),
            'align': pick(1, 1, 2, 8, 16, 4096),
            'pf': pick(-1, -1, 0, 64),
            'freq': pick(0, 0, 3),
            'z': pick(3, 2, 1), 'zp': pick(3, 2),
            'all': pick(0, 1),
            'on': pick('1', '1', '2', '-1', '17'),
            'end': st.tuples(pick(0, 1, 2), st.integers(0, 255)).map(list),
            'acts': acts('al:9 fr:6 re:3 rz:1 bu:1 be:2 ch:1 big:1 nu:1 ei:1 rp:1 nf:1 ca:1 ck:1 us:1 sw:1', 4, n)})

    def fixed(self):
        out = []
        for f in ('static', 'noleak', 'shared'):
            for k in range(14):
                # every entry point, zero and non-zero, each way to give a position, every release call
                a = []
                for fl in range(4):
                    a += [['al', k + 14 * 0 + 32 * fl, 9 + 8 * fl, 1], ['al', k + 32 * fl, 0, 6]]
                a += [['fr', j, j % 4, j] for j in range(6)] + [['rp', 0, 0, 0]]
                out.append({'flavour': f, 'below': 0, 'align': 1, 'pf': -1, 'freq': 0, 'z': 3 - k % 3, 'zp': 3 - k % 2,
                            'all': k & 1, 'on': '1', 'end': [k % 3, 3], 'acts': a})
            out.append({'flavour': f, 'below': 0, 'align': 1, 'pf': -1, 'freq': 0, 'z': 3, 'zp': 3, 'all': 1, 'on': '1',
                        'end': [0, 0], 'acts': [['bu', 159, k, 8 * 9] for k in (4, 8, 12)] * 2 + [['be', 0, 1, 0]] * 6})
        for f, pf in (('static', 0), ('shared', 64)):
            out.append({'flavour': f, 'below': 0, 'align': 1, 'pf': pf, 'freq': 0, 'z': 3, 'zp': 3, 'all': 1, 'on': '1',
                        'end': [0, 0], 'acts': [['al', 0, 0, 0], ['lots', 33000, 10, 0], ['lots', 34000, 5000, 0]]})
        return out

    def build(self, c, show):
        cfg = Cfg(align=c['align'], below=c['below'], pf=c['pf'], freq=c['freq'], z_c=c['z'], z_cpp=c['zp'],
                  reportall=c['all'], show=show)
        if show:
            cfg.extra['DUMA_SHOW_ALLOC'] = c['on']
        h = H(cfg, c['flavour'], {})
        h.zaddr = set()
        h.run_acts(c['acts'])
        if c['end'][0]:
            h.op('z %d %d' % (c['end'][0] - 1, c['end'][1]))
            h.exit = c['end'][1]
        h.report()
        return h

    def run(self, c):
        h = self.build(c, 1)
        R = run.run_script(self.exe[c['flavour']], h.script(), h.cfg.env())
        m = h.judge(R) or h.trace(R.err.decode('latin1'))
        if not m:
            g = self.build(c, 0)
            Q = run.run_script(self.exe[c['flavour']], g.script(), g.cfg.env())
            m = g.judge(Q)
            t = Q.err.decode('latin1')
            if not m and (TRACE.search(t) or STATS.search(t) or ZERO in t):
                m = 'with the trace off `%s` is printed' % t[:300]
            if not m and neutral(h, R) != neutral(g, Q):
                i = [a == b for a, b in zip(neutral(h, R), neutral(g, Q))].index(False)
                m = 'op %d `%s` gives `%s` with the trace and `%s` without' % (i, h.lines[i], neutral(h, R)[i], neutral(g, Q)[i])
        apis = {b.api for b in h.blks}
        nt = len(h.ev) >= 5 and len(apis) >= 2 and bool(h.dead())
        return m, nt, h.labels | {c['flavour'], 'grown:%d' % min(h.grown, 4)} | {'api:%d' % a for a in apis}
