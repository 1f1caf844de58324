import os, random, shutil, tempfile
from vlib.engine import Check
from vlib.hist import *
from vlib import build, run
from checks.c09 import H as Leaks

BOOL = ('0', '1', '2', '-1')
VALUES = {
    'DUMA_ALIGNMENT': ('1', '2', '4', '8', '16', '64', '4096'),
    'DUMA_PROTECT_BELOW': BOOL,
    'DUMA_FILL': ('-1', '0', '1', '90', '255', '256', '261', '-2', '511', '-256'),
    'DUMA_SLACKFILL': ('0', '170', '255', '256', '300', '-1', '-86', '9'),
    'DUMA_CHECK_FREQ': ('0', '1', '2', '5', '-1', '-5'),
    'DUMA_MALLOC_0_STRATEGY': ('0', '1', '2', '3', '4', '-1', '17'),
    'DUMA_NEW_0_STRATEGY': ('2', '3', '0', '1', '4', '-1'),
    'DUMA_MALLOC_FAILEXIT': ('0', '1', '3'),
    'DUMA_PROTECT_FREE': ('-1', '0', '64', '20000', '4294967296', '900000'),
    'DUMA_MAX_ALLOC': ('-1', '300', '90000', '4294967297'),
    'DUMA_FREE_ACCESS': BOOL,
    'DUMA_SHOW_ALLOC': BOOL,
    'DUMA_REPORT_ALL_LEAKS': BOOL,
    'DUMA_MEMCPY_OVERLAP': BOOL,
    'DUMA_DISABLE_BANNER': BOOL,
    'DUMA_OUTPUT_STDOUT': BOOL,
    'DUMA_OUTPUT_STDERR': BOOL,
    'DUMA_OUTPUT_FILE': ('f',),
}
VARS = sorted(VALUES)
DEFAULT = {'DUMA_OUTPUT_STDERR': '1'}
ZERO = ' This is ANSI compliant but probably a bug. See DUMA_ALLOW_MALLOC_0.'


def decoy(var, k, val):
    """entries that are not this variable"""
    return (var + 'X=' + val, var + '_=' + val, 'X' + var + '=' + val, '_' + var + '=' + val, var[:-1] + '=' + val,
            var.lower() + '=' + val, var + ' =' + val, var + 'S=' + val, var.replace('DUMA_', '') + 'X=' + val,
            var[:len(var) // 2] + '=' + val, '=' + var + '=' + val, var, 'A=' + var + '=' + val, var[1:] + '=' + val,
            'DUMA=' + val, 'DUMA_=' + val, '')[k % 17]


def flag(e, var):
    return int(e.get(var, DEFAULT.get(var, '0'))) != 0


class H(Leaks):
    zero = True
    fls = (0, 1, 1, 2)

    def __init__(self, cfg, flavour, e):
        super().__init__(cfg, flavour)
        self.e = e
        self.ev = []           # (op, kind, ...): what has to be printed
        self.allocs = self.frees = 1
        self.want('mb', 'mb')

    # -- what is printed -------------------------------------------------
    def note_alloc(self, size, file, line):
        self.allocs += 1
        if self.cfg.show:
            at = ' at ' + re.escape('%s(%d)' % (file, line)) if self.leak else ''
            self.ev.append((len(self.lines) - 1, re.escape('\nDUMA: Allocating %d byte(s)' % size) + at + re.escape('.')
                            + (re.escape(ZERO) if not size else '')))

    def note_free(self, b, file, line):
        self.frees += 1
        if self.cfg.show:
            at = ''
            if self.leak:
                site = re.escape('%s(%d)' % (file, line)) if file is not None else r'[^\n]*\(0\)'
                at = ' at ' + site + re.escape(' (Allocated from %s(%d))' % (b.file, b.line))
            self.ev.append((len(self.lines) - 1, re.escape('\nDUMA: Freeing %d byte(s)' % b.size) + at + re.escape('.')))

    def do_al(self, s1, raw, s2):
        api = self.apis[s1 % len(self.apis)]
        size = size_of(raw) % 9000
        strat = self.cfg.z_c if api < 10 else self.cfg.z_cpp
        if s2 % 6 == 0 and strat != 0 and api != STRDUP:
            size = 0
        if len(self.blks) > 45:
            return
        fl = self.fls[(s1 >> 5) % len(self.fls)]
        null = size == 0 and strat == 1
        if size == 0:
            if api == POSIX:
                return
            if api == NEW and fl in (2, 3):
                fl = 1
        b = self.alloc(api, size, 1 << (3 + (s2 >> 3) % 8), fl=fl, sel=s1 >> 3 ^ s2, expect='null' if null else 'ok')
        self.note_alloc(b.size, b.file, b.line)
        if null:
            return
        if b.size == 0:
            b.shared = strat == 2
            if b.shared:
                i = len(self.lines) - 1
                inner = self.exps[i]

                def exp(f):
                    m = inner(f)
                    p = int(f[1])
                    if self.null is None:
                        self.null = p
                    return m or (None if p == self.null else
                                 'zero-size %s gave %x, not the shared address %x' % (NAME[api], p, self.null))
                self.exps[i] = exp
                b.state = 'shared'
            else:
                i = len(self.lines) - 1
                inner = self.exps[i]

                def exp(f):
                    m = inner(f)
                    p = int(f[1])
                    if p in self.zaddr or p == self.null:
                        return 'zero-size %s under strategy 3 gave %x again' % (NAME[api], p)
                    self.zaddr.add(p)
                    return m
                self.exps[i] = exp
            self.want('p %d 0' % b.reg, 'p', 0)
            return
        if api == STRDUP:
            self.want('is %d' % b.reg, 'is', -1)
        elif b.fill is not None and b.fill >= 0:
            self.want('i %d 0 %d %d' % (b.reg, b.size, b.fill), 'i', -1)
        self.guard(b)
        if b.align <= PAGE:
            self.around_slack(b)
        self.adopt(b)
        self.write(b, 0, min(b.size, 100), b.reg)
    null = None

    def around_slack(self, b):
        def exp(f):
            if f[1] != '0':
                return 'the bytes around a block of %d bytes are not filled with %d (offset %s)' % (b.size, b.slack, f[1])
        self.op('dm %d -1 0 %d 0' % (b.reg, b.slack), exp)

    def do_fr(self, s1, s2, s3):
        b = self.pickb(s1)
        if b is None:
            return
        file, line = self.release(b, fl=self.fls[s3 % len(self.fls)], sel=s2)
        self.note_free(b, file, line)
        if b.size and s3 % 2:
            self.want('P %d' % b.reg, 'P', 0, -1)

    def do_re(self, s1, raw, s3):
        b = self.pickb(s1, lambda b: b.fam == 'C' and b.size)
        if b is None or len(self.blks) > 45:
            return
        x = self.resize(b, size_of(raw) % 9000 + 1, fl=(0, 1, 2)[s3 % 3], sel=s3)
        self.note_alloc(x.size, x.file, x.line)
        self.note_free(b, x.file, x.line)
        self.guard(x)
        self.around_slack(x)
        self.verify(x)

    def do_sw(self, s1, s2, s3):
        old = self.live()[-2:]
        super().do_sw(s1, s2, s3)
        for b in old:           # nothing changes for blocks there already
            if b.size:
                self.guard(b)
                if b.align <= PAGE:
                    self.around_slack(b)

    def report(self):
        if self.leak:
            st = None
            if self.cfg.show:
                st = r'\nDUMA:   Allocation\(s\): (\d+)\nDUMA: Deallocation\(s\): (\d+)\n'
            self.ev.append((len(self.lines) - 1, None, self.expected(), st, self.allocs, self.frees))

    def do_rp(self, s1, s2, s3):
        if self.leak:
            self.want('d', 'd', 'ok')
            self.report()

    def common(self, t):
        """without what is printed before all outputs are known: the message
        about the copy of the file name"""
        f = self.e.get('DUMA_OUTPUT_FILE')
        if f and self.cfg.show:
            m = re.match(r'\nDUMA: Allocating %d byte\(s\)( at [^\n]*?\(\d+\))?\.' % (len(f) + 1), t)
            if m:
                return t[m.end():]
        return t

    def stream(self, t, banner):
        """everything printed, compared with what had to be printed"""
        if flag(self.e, 'DUMA_DISABLE_BANNER'):
            if 'Copyright' in t:
                return 'the banner was printed although disabled: %r' % t[:200]
        else:
            if not t.startswith(banner):
                return 'the banner is missing or not the first thing printed: %r' % t[:200]
            t = t[len(banner):]
        if self.warned:
            t = re.sub(r'\nDUMA warning: mmap\(\d+\) failed: (?:System Error[^\n]*\n|(?:(?!DUMA)[^\n])*)', '', t)
        if self.cfg.show:
            # the debugger's own start-up call
            m = re.match(r'\nDUMA: Allocating 123 byte\(s\)[^\n]*\nDUMA: Freeing 123 byte\(s\)[^\n]*', t)
            if m:
                t = t[m.end():]
        own = (0, 1) if 'DUMA_OUTPUT_FILE' in self.e else (0,)
        for e in self.ev:
            if self.stopped_at is not None and e[0] >= self.stopped_at:
                break
            if e[1] is not None:
                m = re.match(e[1], t)
                if not m:
                    return 'expected `%s`, but the next thing printed is `%s`' % (e[1], t[:200])
                t = t[m.end():]
                continue
            ls, n, k = e[2]
            want = [self.line(b) for b in ls]
            for i in range(len(want)):
                for l in want:
                    if t.startswith(l):
                        t = t[len(l):]
                        want.remove(l)
                        break
                else:
                    return 'the report lacks `%s`: it goes on with `%s`' % (want[0].strip(), t[:200])
            if n + k:
                w = ('DUMA: Reported %d leak(s).\nDUMA: There are %d extra leak(s) without allocation information.\n'
                     % (n, k))
                if not t.startswith(w):
                    return 'expected `%s`, but the next thing printed is `%s`' % (w, t[:200])
                t = t[len(w):]
            if e[3]:
                m = re.match(e[3], t)
                if not m:
                    return 'no statistics where expected: `%s`' % t[:200]
                if int(m.group(1)) - e[4] not in own or int(m.group(2)) != e[5]:
                    return 'the statistics say %s allocations and %s deallocations, there were %d and %d' % (
                        m.group(1), m.group(2), e[4], e[5])
                t = t[m.end():]
        if self.stopped_at is not None and not self.segv:
            m = re.match(r'(\nDUMA: (Allocating|Freeing)[^\n]*)*(\nDUMA warning: mmap[^\n]*)*\nDUMA Aborting: ', t)
            if not m:
                return 'no message about the stop where expected: `%s`' % t[:200]
            t = ''
        if self.segv:
            t = ''
        if t:
            return 'something more is printed: `%s`' % t[:300]
    segv = warned = False

    # -- endings ---------------------------------------------------------
    def finish(self, fin):
        kind, s1, s2, s3 = fin
        e, cfg = self.e, self.cfg
        self.labels.add('fin:' + kind)
        if kind == 'zero':
            api = (MALLOC, CALLOC, MEMALIGN, VALLOC, REALLOC0)[s1 % 5]
            if cfg.z_c == 0:
                return self.stopper('a %d %d 0 0 %d 0 0' % (self.nreg, api, 16 if api == MEMALIGN else 1), '0 bytes')
            kind = 'none'
        if kind == 'oom':
            self.want('m 0 1000000 %d' % (1 << 20), 'm')
            size = (2 << 20) + s2
            if cfg.failexit:
                api = (MALLOC, CALLOC, VALLOC, REALLOC0)[s1 % 4]
                return self.stopper('a %d %d 0 %d 1 0 0' % (self.nreg, api, size), 'mmap')
            b = self.alloc((MALLOC, VALLOC, REALLOC0)[s1 % 3], size, fl=s2 % 2, sel=s2, expect='null')
            self.note_alloc(size, b.file, b.line)
            self.warned = True
            self.want('m 0 0', 'm')
            kind = 'none'
        if kind == 'ovl':
            n, d = 10 + s1 % 500, 1 + s2 % 9
            up = s3 % 2
            self.want('A %d' % s3, 'A')
            t = 'O 0 0 %d %d %d 0 0' % ((5000 + d, 5000, n) if up else (5000, 5000 + d, n))
            if up or not cfg.overlap:
                return self.stopper(t, 'memcpy')

            def exp(f):
                if f[0] != 's':
                    return 'memcpy of overlapping regions failed'
            self.op(t, exp)
            self.labels.add('overlap allowed')
            kind = 'none'
        b = self.pickb(s1, lambda b: b.size)
        if kind == 'acc' and s2 % 3:
            # a block which often has just a byte or two on its first or last page
            b = self.alloc((MALLOC, NEW, NEWA)[s1 % 3], (1, 2, 4097, 8193, 4095 + s3 % 4, size_of(s3))[(s2 >> 2) % 6],
                           fl=s2 % 2, sel=s2)
            self.note_alloc(b.size, b.file, b.line)
        if kind == 'acc' and b is not None:
            self.want('ro %d %d' % (b.reg, s3 >> 3) if s1 % 4 else 'ro %d' % b.reg, 'ro')
            if flag(e, 'DUMA_FREE_ACCESS'):
                self.segv = True
                self.bad_end = True
                return self.expect_stop('f %d %d 0 0 0' % (b.reg, RELS_OF[b.fam][0]), lambda R: None if R.sig() == 11 else
                                        'releasing a read-only block with DUMA_FREE_ACCESS: %s' % R.how())
            file, line = self.release(b, api=RELS_OF[b.fam][0])
            self.note_free(b, file, line)
            kind = 'none'
        if kind == 'dmg' and b is not None and b.align <= PAGE:
            a = self.op('dm %d %d %d %d 0' % (b.reg, s2, b.slack ^ 85, b.slack), lambda f: None if f[1] == '0' else
                        'the bytes around a block of %d bytes are not filled with %d' % (b.size, b.slack))
            n = cfg.freq if cfg.freq > 0 else 0

            def unless(R):
                return R.log.get(a, '').endswith('none 0')
            rel = 'f %d %d 0 0 0' % (b.reg, RELS_OF[b.fam][0])
            pat = '[Cc]hecking|no mans land|slack|space'
            if n:
                # detected at the latest when the n-th call from now is made
                for i in range(n):
                    self.op('a %d 0 0 20 0 0 0' % (self.nreg + i))
                i = len(self.lines) - n
                self.stop = (i, i + n - 1, lambda R: self.stop_ok(R, pat))
                self.unless = unless
                self.damaged = True
                return
            for i in range(3):
                x = self.alloc(MALLOC, 20)
                self.note_alloc(20, x.file, x.line)
            self.damaged = True
            self.expect_stop(rel, lambda R: self.stop_ok(R, pat), unless)
            return
        if kind == 'double':
            d = self.pickd(s1, lambda b: b.size)
            if d is not None:
                return self.stopper('f %d %d 0 0 0' % (d.reg, RELS_OF[d.fam][0]), 'already freed')
        if s3 % 3 == 0 and not self.warned:
            # more memory is needed from the system
            x = self.alloc((MALLOC, NEW)[s1 % 2], (3 << 20) + s2)
            self.note_alloc(x.size, x.file, x.line)
        # what is kept of the released blocks?
        for d in self.dead():
            if d.size and (cfg.pf == 0 or (cfg.pf in (-1, 1 << 32, 900000) and cfg.maxa in (-1, (1 << 32) + 1) and not self.warned)):
                self.op('kp %d %d' % (d.reg, d.below), lambda f, k=cfg.pf, d=d: None if (int(f[1]) > 0) == (k != 0) else
                        '%s pages of a released block of %d bytes are kept with DUMA_PROTECT_FREE=%d' % (f[1], d.size, k))
        if s2 % 3:
            self.op('z %d %d' % (s2 % 2, s3 % 256))
            self.exit = s3 % 256
        self.report()
    damaged = False

    def stop_ok(self, R, pat):
        if R.sig() != 4:
            return 'stopped by %s instead of SIGILL; output: %s' % (R.how(), tail(R.err))
        if self.printing and not re.search(pat, R.err.decode('latin1')):
            return 'the diagnostic `%s` does not match `%s`' % (tail(R.err), pat)

    def stopper(self, t, pat):
        self.expect_stop(t, lambda R: self.stop_ok(R, pat))


class CHECK(Check):
    id = 'C15'
    rule = ('random subsets of all settings with valid, boundary and out-of-range values, in a random order between decoy '
            'entries whose names resemble theirs, followed by a probing history with run-time switches: alignment, guard '
            'side, fill, slack, zero-size results, what is kept, checks, failure behaviour and the complete text printed '
            '- banner, allocation messages, reports, statistics - on each of the three outputs are compared with the '
            'documented effect. Non-trivial: at least two settings that differ from the default.')
    quick, thorough = 8000, 80000
    assumptions = ['a variable is not given twice', 'values are decimal integers within int (limits on kept and used memory: within long)']

    def setup(self):
        self.exe = build.flavours('static', 'shared', 'noleak', 'getenv')
        self.envexec = build.envexec()
        self.banner = {}
        for n, x in self.exe.items():
            R = run.run_script(x, '', environ=['GLIBCXX_TUNABLES=glibcxx.eh_pool.obj_count=0'], envexec=self.envexec)
            self.banner[n] = R.err.decode('latin1')

    def strategy(self, tier):
        n = 14 if tier == 'quick' else 30
        return st.fixed_dictionaries({
            'flavour': pick('static', 'static', 'noleak', 'shared', 'getenv'),
            'set': st.dictionaries(st.sampled_from(VARS), st.integers(0, 20), max_size=len(VARS)),
            'decoys': st.lists(st.tuples(st.sampled_from(VARS), st.integers(0, 16), st.integers(0, 20)).map(list), max_size=8),
            'order': I16,
            'fin': st.tuples(pick('none', 'zero', 'oom', 'ovl', 'acc', 'dmg', 'double'), I16, I16, I16).map(list),
            'acts': acts('al:7 fr:4 re:2 sw:2 rp:1 ca:1', 1, n)})

    def fixed(self):
        # every value of every variable alone, and against decoys of every kind
        out = []
        for v in VARS:
            for k in range(len(VALUES[v])):
                for fin in ('zero', 'oom', 'ovl', 'acc', 'dmg', 'double', 'none'):
                    out.append({'flavour': 'static', 'set': {v: k}, 'decoys': [], 'order': 5 * k, 'fin': [fin, 0, 0, 0],
                                'acts': [['al', 32, 50, 1], ['al', 0, 99, 1], ['al', 8 + 32, 60, 1], ['fr', 1, 0, 1]]})
            out.append({'flavour': 'static', 'set': {}, 'decoys': [[v, j, len(VALUES[v]) - 1 - j % 2] for j in range(16)],
                        'order': 7, 'fin': ['none', 0, 0, 0], 'acts': [['al', 32, 50, 1], ['al', 0, 99, 1]]})
        return out

    def run(self, c):
        e = {v: VALUES[v][k % len(VALUES[v])] for v, k in c['set'].items()}
        d = None
        path = None
        if 'DUMA_OUTPUT_FILE' in e or any(x[0] == 'DUMA_OUTPUT_FILE' for x in c['decoys']):
            d = tempfile.mkdtemp(prefix='vc15', dir='/dev/shm' if os.access('/dev/shm', os.W_OK) else None)
            path = d + '/out'
            if 'DUMA_OUTPUT_FILE' in e:
                e['DUMA_OUTPUT_FILE'] = path
        try:
            return self.run1(c, e, path)
        finally:
            if d:
                shutil.rmtree(d, ignore_errors=True)

    def run1(self, c, e, path):
        def num(v, dflt, ok=lambda x: True):
            x = int(e.get(v, dflt))
            return x if ok(x) else int(dflt)
        fill = num('DUMA_FILL', 255)
        cfg = Cfg(align=num('DUMA_ALIGNMENT', 1), below=int(flag(e, 'DUMA_PROTECT_BELOW')),
                  fill=fill if fill == -1 else fill & 255, slack=num('DUMA_SLACKFILL', 170) & 255,
                  freq=num('DUMA_CHECK_FREQ', 0, lambda x: x > 0),
                  z_c=num('DUMA_MALLOC_0_STRATEGY', 3, lambda x: 0 <= x <= 3),
                  z_cpp=num('DUMA_NEW_0_STRATEGY', 3, lambda x: 2 <= x <= 3),
                  failexit=int(num('DUMA_MALLOC_FAILEXIT', 1) != 0), pf=num('DUMA_PROTECT_FREE', -1),
                  maxa=num('DUMA_MAX_ALLOC', -1), show=int(flag(e, 'DUMA_SHOW_ALLOC')),
                  reportall=int(flag(e, 'DUMA_REPORT_ALL_LEAKS')), overlap=int(flag(e, 'DUMA_MEMCPY_OVERLAP')))
        h = H(cfg, c['flavour'], e)
        h.zaddr = set()
        h.run_acts(c['acts'])
        outs = {'stdout': flag(e, 'DUMA_OUTPUT_STDOUT'), 'stderr': flag(e, 'DUMA_OUTPUT_STDERR'),
                'file': 'DUMA_OUTPUT_FILE' in e}
        h.printing = any(outs.values())
        h.finish(c['fin'])
        # decimal numbers all the same: leading zeros, a plus sign, blanks in front, as a shell script may produce them
        how = ('%s', '%s', '00%s', '+%s', '  %s')[c['order'] // 5 % 5]
        env = ['%s=%s' % (v, x if v == 'DUMA_OUTPUT_FILE' else '-' + how.strip('+ ') % x[1:] if x[0] == '-' else how % x)
               for v, x in e.items()]
        for v, j, k in c['decoys']:
            val = path if v == 'DUMA_OUTPUT_FILE' else VALUES[v][k % len(VALUES[v])]
            x = decoy(v, j, val)
            if x.split('=')[0] not in e and x.split('=')[0] not in VARS:
                env.append(x)
        env += ['GLIBCXX_TUNABLES=glibcxx.eh_pool.obj_count=0', 'PATH=/usr/bin:/bin']
        random.Random(c['order']).shuffle(env)
        R = run.run_script(self.exe[c['flavour']], h.script(), environ=env, envexec=self.envexec)
        real = {'stdout': R.out, 'stderr': R.err, 'file': None}
        if path and os.path.exists(path):
            real['file'] = open(path, 'rb').read()
        nt = sum(1 for v, x in e.items() if x != VALUES[v][0]) >= 2
        labels = h.labels | {c['flavour']} | {v for v in e} | {'decoys:%d' % min(4, len(c['decoys']))}

        def judge():
            first = None
            for o in ('stdout', 'stderr', 'file'):
                if not outs[o]:
                    if real[o]:
                        return 'something is printed to %s, which is not selected: %r' % (o, real[o][:200])
                    continue
                t = h.common((real[o] or b'').decode('latin1'))
                if first is None:
                    first = (o, t)
                elif t != first[1]:
                    return 'the outputs differ: %s %r, %s %r' % (first[0], first[1][-200:], o, t[-200:])
            # judge what was printed, wherever it went
            R.out, R.err = b'', first[1].encode('latin1') if first else b''
            m = h.judge(R)
            if m or first is None:
                return m
            if h.stop and h.stopped_at is None:
                return None      # nothing to damage: the calls meant to stop went through
            return h.stream(first[1], self.banner[c['flavour']])
        m = judge()
        return m, nt, labels
