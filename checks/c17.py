import os, shutil, tempfile
from vlib.engine import Check
from vlib.hist import *
from vlib import build, run

CAP = 4096       # lengths cluster around multiples of a page-sized buffer
CHARS = ''.join(chr(i) for i in range(1, 256) if chr(i) not in '%\n\r"\0')


def text(n, seed):
    """n bytes, none of them a percent sign"""
    k = seed % 7
    if k == 0:
        return 'x' * n
    if k == 1:
        return (CHARS * (n // len(CHARS) + 1))[:n]
    if k == 2:
        return ('ab/%s.c'.replace('%', '+') * (n // 7 + 1))[:n]
    return ''.join(CHARS[(seed * (i + 3) * 7919 + i * i) % 94 + 30] for i in range(min(n, 60))) + 'q' * (n - 60)


def length(raw):
    c, q = raw % 8, raw >> 3
    if c <= 1:
        return q % 12
    if c == 2:
        return q % 200
    if c == 3:
        return CAP - 60 + q % 70
    if c == 4:
        return 2 * CAP - 60 + q % 80
    if c == 5:
        return 1 + q % 5000
    if c == 6:
        return 3 * CAP - 40 + q % 80
    return q * 3 % 30000


def number(raw, bits):
    c, q = raw % 8, raw >> 3
    v = (0, q, (1 << bits) - 1 - q % 3, (1 << (bits - 1)) + q % 5 - 2, 10 ** (q % 20) + (q >> 5) % 3 - 1,
         (1 << (q % 64)) - (q >> 6) % 2, (q * 0x9E3779B97F4A7C15 + raw), 16 ** (q % 16) * (1 + q % 15))[c]
    return v % (1 << bits)


def signed(v, bits):
    return v - (1 << bits) if v >> (bits - 1) else v


OTHER = re.compile(r'\n@@other (\d+)@@\n')


class H(Hist):
    fls = (1, 1, 1, 0)
    apis = [MALLOC, CALLOC, MEMALIGN, REALLOC0, STRDUP, NEW, NEWA, NEWAN]
    maxlen = 0
    npr = 0

    def __init__(self, cfg, flavour, files, outs, fstate):
        super().__init__(cfg, flavour, files)
        self.outs = outs
        self.fstate = fstate
        self.fnstate = fstate
        self.ev = {'stdout': [], 'stderr': [], 'file': []}
        self.ok_file = outs['file'] and fstate in ('new', 'old', 'link')
        self.exists = bool(cfg.show) or fstate in ('old', 'link')
        if fstate in ('old', 'link'):
            self.ev['file'].append('something old\n')

    def say(self, t):
        """text every selected output gets; a callable yields it at the end"""
        for o in ('stdout', 'stderr'):
            if self.outs[o]:
                self.ev[o].append(t)
        if self.ok_file:
            self.ev['file'].append(t)
            self.exists = True
            self.nother += self.other == 1 and bool(t)
        self.npr += 1

    def fmt(self, pieces, cap=7):
        """-> pattern, arguments (type, value), text"""
        pat, args, out = '', [], ''
        for k, a, b in pieces:
            if len(args) >= cap and k not in ('t', '%'):
                continue
            if k == 't':
                t = text(length(a) if b % 4 == 0 else a % 30, b)
                pat += t
                out += t
            elif k == '%':
                pat += '%%'
                out += '%'
            elif k == 's':
                if b % 9 == 8:
                    args.append((2, 0))
                    out += 'NULL'
                else:
                    i = a % len(self.files)
                    args.append((1, i))
                    out += self.files[i]
                pat += '%s'
            elif k == 'c':
                v = 1 + a % 255
                args.append((0, v))
                pat += '%c'
                out += chr(v)
            elif k == 'i':
                v = signed(number(a, 32), 32)
                args.append((0, v))
                pat += '%i'
                out += str(v)
            elif k == 'l':
                v = signed(number(a * 7 + b, 64), 64)
                args.append((0, v))
                pat += '%l'
                out += str(v)
            else:
                v = number(a * 5 + b, 64)
                args.append((0, signed(v, 64)))
                pat += '%' + k
                out += '%x' % v if k in 'ax' else str(v)
            self.labels.add('%' + k)
        self.maxlen = max(self.maxlen, len(out))
        return pat, args, out

    def fm(self, where, pieces):
        pat, args, out = self.fmt(pieces)
        return 'fm %d %d %s "%s' % (where, len(args), ' '.join('%d %d' % a for a in args), pat), out

    def do_pr(self, pieces):
        t, out = self.fm(1, pieces)
        self.want(t, 'fm', 'ok')
        self.say(out)

    def do_sp(self, pieces):
        t, out = self.fm(0, pieces)
        w = out.encode('latin1').hex()

        def exp(f):
            if f[1] == 'none':
                return
            if f[1] != '=' + w:
                return 'formatting gave %r, expected %r' % (bytes.fromhex(f[1][1:])[:300], out[:300])
        self.op(t, exp)

    def do_o1(self, s1, s2, s3):
        fd = 1 + s1 % 2
        self.want('o1 %d' % fd, 'o1')
        self.ev[('stdout', 'stderr')[fd - 1]].append('<user-out>\n')

    def do_ul(self, s1, s2, s3):
        if self.ok_file and self.path and self.fstate != 'link':
            self.want('ul "%s' % self.path, 'ul', 0 if self.exists else -1)
            self.exists = False
            self.ev['file'] = []
            self.nother = 0
            self.labels.add('unlinked')

    def site_of(self, b):
        return '%s(%d)' % (b.file, b.line)

    def do_al(self, s1, raw, s2):
        if len(self.blks) > 40:
            return
        api = self.apis[s1 % len(self.apis)]
        size = 1 + size_of(raw) % 9000
        b = self.alloc(api, size, 16 << (s2 % 3), fl=self.fls[(s1 >> 5) % len(self.fls)], sel=(s1 >> 3) ^ s2)
        if self.cfg.show:
            t = '\nDUMA: Allocating %d byte(s)' % b.size + (' at ' + self.site_of(b) if self.leak else '') + '.'
            self.maxlen = max(self.maxlen, len(t))
            self.say(t)
        self.guard(b)

    def do_fr(self, s1, s2, s3):
        b = self.pickb(s1)
        if b is None:
            return
        r = RELS_OF[b.fam]
        api = r[s2 % len(r)]
        # a plain delete has no position that could be predicted
        fl = 1 if self.leak and api not in (16, 17) else self.fls[s3 % 4]
        file, line = self.release(b, api=api, fl=fl, sel=s2 ^ s3)
        if self.cfg.show:
            t = '\nDUMA: Freeing %d byte(s)' % b.size
            if self.leak:
                t += ' at %s(%d) (Allocated from %s)' % ('NULL' if file is None else file, line, self.site_of(b))
            self.maxlen = max(self.maxlen, len(t))
            self.say(t + '.')

    def leaks(self):
        l = self.live()
        if len(l) > 1 or not self.leak:
            return None
        if not l:
            return []
        b = l[0]
        info = b.line > 0

        def line():
            return "\nDUMA: ptr=0x%x size=%d type='%s' %snot freed\n" % (
                self.addr[b.reg], b.size, NAME[b.api], '' if self.so else 'alloced from %s ' % self.site_of(b))
        self.maxlen = max(self.maxlen, 60 + len(b.file))
        return ([line] if info else []) + ['DUMA: Reported %d leak(s).\nDUMA: There are %d extra leak(s) without '
                                           'allocation information.\n' % (info, not info)]

    def do_rp(self, s1, s2, s3):
        l = self.leaks()
        if l is not None and not self.cfg.show:
            self.want('d', 'd', 'ok')
            for t in l:
                self.say(t)

    def finish(self, fin):
        kind, s1, s2, s3, pieces = fin
        self.labels.add('fin:' + kind)
        if kind == 'none':
            self.want('wi 0 1', 'wi')
            self.other *= 2
        how = self.how

        def stopped(R):
            if how == 'dfl' and kind not in ('exit', 'assert'):
                return None if R.sig() == 4 else 'stopped by %s instead of SIGILL' % R.how()
            if kind == 'assert':
                return None if R.sig() == 11 else 'a false assertion: %s' % R.how()
            return None if R.code() == 255 else 'a fatal error with SIGILL %s: %s' % (how, R.how())
        b = None
        if kind in ('abort', 'exit'):
            t, out = self.fm(2 if kind == 'abort' else 3, pieces)
            self.say('\nDUMA %s: %s\n' % ('Aborting' if kind == 'abort' else 'Exiting', out))
            self.maxlen = max(self.maxlen, len(out) + 17)
            self.expect_stop(t, stopped)
            return
        if kind == 'assert':
            i, j, ln = s1 % len(self.files), s2 % len(self.files), signed(number(s3, 32), 32)
            self.say('\nDUMA: DUMA_ASSERT(%s) failed at\n%s(%d)\n' % (self.files[i], self.files[j], ln))
            self.maxlen = max(self.maxlen, len(self.files[i]) + len(self.files[j]) + 40)
            self.expect_stop('as %d %d "%s' % (j, ln, self.files[i]), stopped)
            return
        if kind == 'ovl':
            i, ln, n = s1 % len(self.files), 1 + s2, 10 + s3 % 900
            self.want('A %d' % s3, 'A')
            fl = 1 if self.leak else 0
            at = ' at %s(%d)' % (self.files[i], ln) if self.leak else ''
            self.say(re.compile(r'\nDUMA Aborting: memcpy\([0-9a-f]+, [0-9a-f]+, %d\): memory regions overlap%s\.\n' % (
                n, re.escape(at)), re.S))
            self.maxlen = max(self.maxlen, 80 + len(at))
            self.expect_stop('O 0 %d 5000 5003 %d %d %d' % (fl, n, i, ln), stopped)
            return
        if kind == 'double':
            b = self.pickd(s1, lambda b: b.fl == 1 or not self.leak)
            if b is not None:
                pos = ''
                if self.leak:
                    pos = re.escape(' at %s(%d)' % (b.relfile, b.relline) if b.relfile is not None else
                                    '; allocated from ' + self.site_of(b))
                self.say(lambda: re.compile(r'\nDUMA Aborting: free\(%x\): memory already freed%s\.?\n' % (
                    self.addr[b.reg], pos), re.S))
                self.maxlen = max(self.maxlen, 60 + len(pos))
        if kind == 'mism':
            b = self.pickb(s1, lambda b: b.fam == 'C')
            if b is not None:
                i, ln = s2 % len(self.files), 1 + s3
                a = " used  at %s" % self.site_of(b) if self.leak else ' used '
                d = ' called at %s(%d)!' % (self.files[i], ln) if self.leak else ' called!'
                t = "\nDUMA Aborting: Free mismatch: allocator '%s'%s%s but  deallocator 'scalar delete'%s\n" % (
                    NAME[b.api], a, '\n ' if self.leak else '', d)
                self.maxlen = max(self.maxlen, len(t))
                self.say(t)
                self.expect_stop('f %d 10 %d %d %d' % (b.reg, 1 if self.leak else 0, i, ln), stopped)
                return
        if kind == 'slack':
            b = self.pickb(s1, lambda b: b.fl == 1 and b.align <= PAGE)
            if b is not None:
                a = self.op('dm %d %d %d %d 0' % (b.reg, s2, b.slack ^ 255, b.slack))
                self.unless = lambda R: R.log.get(a, '').endswith('none 0')
                i = self.op('c %d 1' % b.reg)
                pos = ''
                if self.leak:
                    pos = r', size=%d[ \n]alloced from %s' % (b.size, re.escape(self.site_of(b)))
                self.say(lambda: re.compile(r'\nDUMA Aborting: (?:detected[a-z \']*userSpace: ptr=%x%s|ptr=%x: detected '
                                            r'[a-zA-Z \']*userSpace%s)\n' % ((self.addr[b.reg], pos) * 2), re.S))
                self.maxlen = max(self.maxlen, 60 + len(pos))
                self.stop = (i, i, stopped)
                return
        if kind == 'double' and b is not None:
            self.expect_stop('f %d %d %d 0 5' % (b.reg, RELS_OF[b.fam][0], 1 if self.leak else 0), stopped)
            return
        # an ordinary end: what is live is reported
        if self.leak:
            l = self.leaks()
            self.final_leaks = l
            if l:
                for t in l:
                    self.say(t)
            if self.cfg.show and l is not None:
                self.say(re.compile(r'\nDUMA:   Allocation\(s\): \d+\nDUMA: Deallocation\(s\): \d+\n'))
    final_leaks = []
    other = 0        # 1: another process appends to the file before each write, 2: has done so
    nother = 0
    unless = None

    def compare(self, real):
        """real: output -> bytes or None"""
        for o in ('stdout', 'stderr', 'file'):
            if real[o] is None:
                continue
            t = real[o].decode('latin1')
            if o == 'file' and self.other:
                # what another process appended in between is all there
                seq = [int(x) for x in OTHER.findall(t)]
                if seq != list(range(seq[0], seq[0] + len(seq)) if seq else []) or not seq and self.nother:
                    return 'file: what another process had appended was overwritten (of its lines only %s are left)' % seq
                t = OTHER.sub('', t)
            t = self.common(t)
            pos = 0
            for w in self.ev[o]:
                if callable(w):
                    w = w()
                if hasattr(w, 'match'):
                    m = w.match(t, pos)
                    if not m:
                        return '%s: expected `%s`, found %s' % (o, w.pattern[:300], show(t[pos:]))
                    pos = m.end()
                else:
                    if not t.startswith(w, pos):
                        return '%s: expected %s, found %s' % (o, show(w), show(t[pos:], w))
                    pos += len(w)
            if self.final_leaks is None:
                continue         # several live blocks: C09's business
            if pos != len(t):
                return '%s: something more was written: %s' % (o, show(t[pos:]))

    def common(self, t):
        """without the trace of the debugger's own start-up"""
        if not self.cfg.show:
            return t
        m = re.search(r'(?:\nDUMA: Allocating \d+ byte\(s\)(?: at [^\n]*?\(\d+\))?\.){0,2}\nDUMA: Allocating 123 byte\(s\)(?: at '
                      r'[^\n]*?\(\d+\))?\.\nDUMA: Freeing 123 byte\(s\)(?: at [^\n]*?\(Allocated from [^\n]*?\))?\.', t)
        if m and m.start() <= len('something old\n'):
            return t[:m.start()] + t[m.end():]
        return t


def show(t, like=None):
    if like is not None:
        i = 0
        while i < min(len(t), len(like)) and t[i] == like[i]:
            i += 1
        if i > 60:
            return '(after %d equal bytes) %r' % (i, t[i:i + 120])
    return repr(t[:160]) + ('... (%d bytes)' % len(t) if len(t) > 160 else '')


class CHECK(Check):
    id = 'C17'
    rule = ('random sequences of messages - the formatter with random patterns over all directives and boundary values, '
            'allocation traces, leak reports, and one of nine fatal endings - with strings and file names whose lengths '
            'cluster around multiples of 4096, on random selections of outputs with files that are new, old, linked, '
            'deleted in between, unusable or full, closed descriptors, short and interrupted writes, and SIGILL at its '
            'default, ignored, handled or blocked; every output is compared byte for byte. Non-trivial: at least two '
            'messages, one longer than 60 bytes.')
    quick, thorough = 9000, 100000

    def setup(self):
        self.exe = build.flavours('static', 'shared', 'noleak')

    def strategy(self, tier):
        n = 8 if tier == 'quick' else 16
        piece = st.tuples(pick('t', 's', 'd', 'x', 'a', 'i', 'l', 'c', '%'), I16, I16).map(list)
        pieces = st.lists(piece, min_size=1, max_size=9)
        act = st.one_of(st.tuples(pick('pr', 'pr', 'sp'), pieces).map(list),
                        st.tuples(pick('al', 'al', 'fr', 'rp', 'o1', 'ul'), I16, I16, I16).map(list))
        return st.fixed_dictionaries({
            'flavour': pick('static', 'static', 'static', 'noleak', 'shared'),
            'outs': pick(1, 0, 2, 3, 4, 5, 6, 7, 4, 5, 6),
            'fstate': pick('new', 'new', 'old', 'old', 'link', 'dir', 'nodir', 'full', 'long', 'empty'),
            'closed': pick(0, 0, 0, 1, 2, 3),
            'files': st.lists(st.tuples(I16, I16).map(list), min_size=1, max_size=6),
            'show': pick(0, 0, 1),
            'wi': st.tuples(pick(0, 0, 0, 1, 2, 3, 4), pick(2, 3, 7, 100, 4095)).map(list),
            'ill': pick('dfl', 'dfl', 'ignored', 'handled', 'blocked'),
            'acts': st.lists(act, min_size=1, max_size=n),
            'fin': st.tuples(pick('none', 'none', 'abort', 'exit', 'assert', 'double', 'mism', 'slack', 'ovl'), I16, I16, I16,
                             pieces).map(list)})

    def fixed(self):
        out = []
        base = {'flavour': 'static', 'outs': 6, 'fstate': 'new', 'closed': 0, 'files': [[8 * 5, 3]], 'show': 0, 'wi': [0, 2],
                'ill': 'dfl', 'acts': [], 'fin': ['none', 0, 0, 0, [['d', 0, 0]]]}
        # every directive with every kind of boundary value
        for k in 'dxail':
            for c in range(8):
                for q0 in range(0, 64, 4):
                    out.append(dict(base, acts=[['pr', [[k, (q * 8 + c), 0] for q in range(q0, q0 + 4)]]]))
        for n in list(range(CAP - 24, CAP + 3)) + [2 * CAP - 1, 2 * CAP, 5 * CAP]:
            for fin in ('none', 'abort', 'exit', 'assert'):
                q = n - (CAP - 60) if n < CAP + 10 else 0
                f = [3 + 8 * q, 0] if n < CAP + 10 else [4 + 8 * (n - 2 * CAP + 60), 0] if n < 3 * CAP else [7 + 8 * (n // 3), 0]
                out.append(dict(base, files=[f], acts=[['pr', [['s', 0, 0]]]], fin=[fin, 0, 0, 8 * 5 + 1, [['s', 0, 0]]]))
        return out

    def run(self, c):
        d = tempfile.mkdtemp(prefix='vc17', dir='/dev/shm' if os.access('/dev/shm', os.W_OK) else None)
        try:
            return self.run1(c, d)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def run1(self, c, d):
        sel = c['outs']
        outs = {'stdout': bool(sel & 1), 'stderr': bool(sel & 2), 'file': bool(sel & 4)}
        fs = c['fstate'] if outs['file'] else 'none'
        path = {'new': d + '/f', 'old': d + '/f', 'link': d + '/l', 'dir': d, 'nodir': d + '/x/y', 'full': '/dev/full',
                'long': d + '/' + 'n' * 5000, 'empty': '', 'none': None}[fs]
        real_path = d + '/f'
        if fs in ('old', 'link'):
            with open(real_path, 'w') as f:
                f.write('something old\n')
        if fs == 'link':
            os.symlink(real_path, d + '/l')
        files = [text(length(a), b) or 'e' for a, b in c['files']]
        e = {'DUMA_OUTPUT_STDOUT': str(int(outs['stdout'])), 'DUMA_OUTPUT_STDERR': str(int(outs['stderr']))}
        if path is not None:
            e['DUMA_OUTPUT_FILE'] = path
        cfg = Cfg(show=c['show'], extra=e)
        h = H(cfg, c['flavour'], files, outs, fs)
        h.path = path
        h.how = c['ill']
        if c['ill'] != 'dfl':
            h.want('ill %d' % {'ignored': 1, 'handled': 0, 'blocked': 2}[c['ill']], 'ill')
        if c['wi'][0]:
            h.want('wi %d %d' % tuple(c['wi']), 'wi')
            h.other = int(c['wi'][0] == 4 and not c['closed'])
        h.run_acts(c['acts'])
        h.finish(c['fin'])
        closed = [n for n in (1, 2) if c['closed'] & n]
        R = run.run_script(self.exe[c['flavour']], h.script(), cfg.env(), closed=closed)
        real = {'stdout': R.out, 'stderr': R.err, 'file': None}
        for n in closed:
            if real[('stdout', 'stderr')[n - 1]]:
                return 'something was written to a closed descriptor', False, set()
            real[('stdout', 'stderr')[n - 1]] = None
        if os.path.lexists(real_path):
            with open(real_path, 'rb') as f:
                real['file'] = f.read()
        elif h.ok_file:
            real['file'] = b''
        nt = h.npr >= 2 and h.maxlen > 60
        labels = h.labels | {c['flavour'], 'file:' + fs, 'ill:' + c['ill'], 'outs:%d' % sel, 'closed:%d' % c['closed'],
                             'write:%d' % c['wi'][0], 'over %d' % CAP if h.maxlen > CAP else 'near' if h.maxlen > CAP - 100 else
                             'short'}

        def judge():
            if any(l == 'fm none' for l in R.log.values()):
                return None
            R.out = b''
            err, R.err = R.err, b''
            m = h.judge(R)
            R.err = err
            if m:
                return m
            if h.stop and h.stopped_at is None:
                return None
            return h.compare(real)
        return judge(), nt, labels
