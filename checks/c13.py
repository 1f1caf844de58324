from vlib.engine import Check
from vlib.hist import *
from vlib import build, run
from checks.c09 import H as Leaks

MB = 1 << 20
OLDLINE = {0: 503, 1: 504, 2: 505, 3: 506}
OLDDEL = {0: 511, 1: 512, 2: 513, 3: 514}
# statements of the destructors that delete something
STMT = {0: 0, 1: 1, 2: 2, 3: 3}


class H(Leaks):
    apis = CPP_APIS
    zero = True
    events = 0
    trees = 0
    reduced = -1               # operation at which exhaustion last gave up protected blocks

    def fresh(self, b):
        if b.size:
            self.adopt(b)
            self.write(b, 0, min(b.size, 500), b.reg)

    def outcome(self, mode, api):
        return 'ok' if mode in (1, 7, 8) else 'null' if api in (NEWN, NEWAN) else 'derived' if mode == 6 else 'bad_alloc'

    def do_hn(self, s1, s2, s3):
        """exhaustion with and without a new-handler"""
        api = (NEW, NEWN, NEWA, NEWAN)[s1 % 4]
        mode = (1, 1, 2, 4, 0, 2, 6, 7, 8)[(s1 >> 2) % 9]
        k = 1 + s2 % (1, 3, 8, 40)[s2 % 4]
        size = MB + s3 * 37
        fl = self.fls[(s1 >> 5) % len(self.fls)]
        if fl in (2, 3):
            api = NEWA if api in (NEW, NEWA) else NEWAN
        if mode:
            self.want('H %d %d' % (mode, k), 'H')
        self.want('m 0 1000000 %d' % MB, 'm')
        exp = self.outcome(mode, api)
        b = self.alloc(api, size, fl=fl, sel=s2 ^ s3, expect=exp)
        if b.state == 'live':
            self.bytes += b.size
            self.fresh(b)
        self.want('hc', 'hc', k + (mode == 7), {4: 0, 7: 2}.get(mode, 1)) if mode else self.op('hc')
        if s3 % 3 == 0 and mode in (1, 2, 6, 8):
            # the handler stays installed and works again
            self.want('H %d %d' % (mode, 2), 'H')
            self.want('m 0 1000000 %d' % MB, 'm')
            b2 = self.alloc(api, size, fl=fl, sel=s2, expect=exp)
            if b2.state == 'live':
                self.bytes += b2.size
                self.fresh(b2)
            self.want('hc', 'hc', 2, 1)
        self.reduced = len(self.lines)
        self.op('mq')
        self.want('H 0 0', 'H')
        self.events += 1
        self.labels.add('handler%d/%s' % (mode, 'throwing' if api in (NEW, NEWA) else 'nothrow'))

    def do_ni(self, s1, s2, s3):
        """sizes that can never be provided"""
        from checks.c11 import impossible, signed
        api = (NEW, NEWN, NEWA, NEWAN)[s1 % 4]
        mode = (0, 2, 4, 6)[(s1 >> 2) % 4]
        k = 1 + s2 % 9
        if mode:
            self.want('H %d %d' % (mode, k), 'H')
        exp = self.outcome(mode, api)
        b = self.alloc(api, 8, fl=s3 % 2, sel=s2, expect=exp)
        w = self.lines[-1].split()
        w[4] = str(signed(impossible(s2, s3)))
        self.lines[-1] = ' '.join(w)
        b.size = 0
        if mode:
            self.want('hc', 'hc', k, 0 if mode == 4 else 1)
            self.want('H 0 0', 'H')
        self.reduced = len(self.lines)
        self.events += 1
        self.labels.add('impossible')

    def do_ct(self, s1, s2, s3):
        """constructors that throw"""
        w = s1 % (7 if self.leak else 5)
        arr = w in (1, 4, 6)
        mode = s2 % 6 if arr else s2 % 2
        throws = mode < 4 if arr else mode == 1
        self.want('ct %d %d' % (w, mode), 'ct', 7 if throws else 0)
        if throws:
            self.events += 1
            self.labels.add('ctor%d' % w)

    def do_ol(self, s1, s2, s3):
        """the old macros"""
        kind = s1 % 4 if self.leak else s1 % 2
        size = 24 if kind % 2 == 0 else 1 + s2 % 9000
        if kind % 2 and s2 % 4 == 0:
            # memory is exhausted, or the size impossible
            n = MB + 1 + s2 * 37 if s3 % 2 else (1 << 60) + s2
            self.want('m 0 1000000 %d' % MB, 'm')
            self.want('on %d %d %d' % (self.nreg, kind, n), 'on', 0, 0 if kind == 3 else 1)
            self.nreg += 1
            self.op('mq')
            self.reduced = len(self.lines)
            self.events += 1
            self.labels.add('old%d-exhausted' % kind)
            return
        b = Blk()
        b.reg = self.nreg
        self.nreg += 1
        b.size, b.api, b.fl = size, NEWA if kind % 2 else NEW, 0
        b.file, b.line = ('old_site.cpp', OLDLINE[kind]) if self.leak else (UNKPP, 0)
        b.fam, b.align, b.below, b.state, b.slack = FAM[b.api], self.eff_align(NEW, size, 0), self.below, 'live', self.slack
        b.fill, b.freed_at, b.relfile, b.relline = self.fill, None, None, 0
        b.written = b.resized = b.shared = False
        b.born, b.died = len(self.lines), None
        self.blks.append(b)

        def exp(f):
            self.addr[b.reg] = int(f[1])
            if f[1] == '0':
                return 'an old-style new of %d bytes gave null' % size
        self.op('on %d %d %d' % (b.reg, kind, size), exp)
        self.bytes += size
        self.guard(b)
        self.fresh(b)
        if s3 % 2:
            d = kind % 2 + (2 * (s3 >> 1 & 1) if self.leak else 0)
            self.want('od %d %d' % (b.reg, d), 'od', 'ok')
            b.state, b.died = 'dead', len(self.lines) - 1
            self.bytes -= size
            if self.leak:
                b.relfile, b.relline = 'old_site.cpp', OLDDEL[d]
        self.labels.add('old%d' % kind)

    def tree(self, s1, s2, s3, bad=None):
        """objects whose destructors delete further objects -> (nodes, statement line of every node)"""
        n = 1 + s1 % (6, 20, 60, 250)[s2 % 4]
        x = s3 * 7919 + s2
        slots = [(0, 0), (0, 1)]
        child = {}
        for i in range(1, n):
            x = (x * 1103515245 + 12345) % (1 << 31)
            # at times a chain, at times bushy
            j = len(slots) - 1 - (x >> 9) % min(len(slots), (1, 3, 1 << 30)[s2 // 4 % 3])
            p, w = slots.pop(j)
            child[p, w] = (i, (x >> 5) % 4)
            slots += [(i, 0), (i, 1)]
        site = {0: 426}
        for (p, w), (i, sm) in child.items():
            site[i] = 420 + sm
        for p, w in slots:
            x = (x * 1103515245 + 12345) % (1 << 31)
            child[p, w] = ((-1, -1, -3, -3, -4)[(x >> 7) % 5], (x >> 11) % 4)
            if child[p, w][0] == -4:
                child[p, w] = (-4, 0)
        line = None
        if bad is not None:
            p, w = slots[bad % len(slots)]
            if bad >> 4 & 1:
                child[p, w] = (-4, 1)
                line = site[p]
            else:
                child[p, w] = (-2, bad % 4)
                line = 404 + bad % 4
        v = []
        for i in range(n):
            for w in (0, 1):
                v += child[i, w]
        return n, 'tr %d %s' % (n, ' '.join(map(str, v))), site, line

    def do_tr(self, s1, s2, s3):
        n, t, site, _ = self.tree(s1, s2, s3)
        self.want(t, 'tr', 'ok')
        self.trees += 1
        self.site_of, self.tree_at = site, len(self.lines)
        self.labels.add('tree')
        if n > 1:
            self.events += 1
    site_of = None

    def do_fl(self, s1, s2, s3):
        if s1 % 2:
            self.switch(align=1 << (s2 % 9))
        else:
            self.switch(below=1 - self.below)

    def finish(self, fin):
        kind, s1, s2, s3 = fin
        # (a released block that was given back may share its address with a later one)
        keeps = self.cfg.pf == -1
        kept = lambda b: b.size > 0 and b.died > self.reduced
        if kind == 'double' and not (keeps and self.pickd(s1, kept)):
            kind = 'tree-double'
        if kind == 'tree-double' and not (keeps and self.site_of and self.tree_at > self.reduced):
            kind = 'tree-bad'
        if kind == 'mismatch' and not self.live():
            kind = 'tree-bad'
        self.labels.add('fin:' + kind)
        if kind == 'none':
            return self.end(*[s1 % 3, s2 % 256])
        if kind == 'tree-bad':
            n, t, site, line = self.tree(s1, s2, s3, bad=s1 ^ s3)
            pat = r'mismatch.*vector new\[\]' + (r'.*tree_site\.cpp\(427\)' if self.leak else '') + '.*scalar delete'
            if self.leak:
                pat += r'.*tree_site\.cpp\(%d\)' % line
            return self.expect_stop(t, lambda R: aborted(R, pat))
        if kind == 'tree-double':
            i = s1 % len(self.site_of)
            at = len(self.lines)

            def chk(R):
                m = re.search(r' %d tx (\d+)' % at, R.rawlog.decode('latin1'))
                pat = '%x' % int(m.group(1)) + '.*already freed'
                if self.leak:
                    pat += r'.*tree_site\.cpp\(%d\)' % self.site_of[i]
                return aborted(R, pat)
            return self.expect_stop('tx %d' % i, chk)
        if kind == 'double':
            b = self.pickd(s1, kept)
            r = RELS_OF[b.fam][s2 % len(RELS_OF[b.fam])]
            fl, fi, ln, file, line = self.rel_site(r, s3 % 4, s3)

            def chk(R):
                pat = '%x' % self.addr[b.reg] + '.*already freed'
                if self.leak and b.relline:
                    pat += '.*' + re.escape('%s(%d)' % (b.relfile, b.relline))
                return aborted(R, pat)
            return self.expect_stop('f %d %d %d %d %d' % (b.reg, r, fl, fi, ln), chk)
        b = self.pickb(s1)
        rel = [r for r in (0, 10, 11, 12, 13, 14, 15, 16, 17) if REL[r][0] != b.fam]
        r = rel[s2 % len(rel)]
        fl, fi, ln, file, line = self.rel_site(r, (s3 >> 1) % 4, s3)
        pat = 'mismatch.*' + re.escape(NAME[b.api])
        if self.leak and b.line:
            pat += '.*' + re.escape('%s(%d)' % (b.file, b.line))
        pat += '.*' + re.escape(REL[r][1])
        if self.leak and line and file:
            pat += '.*' + re.escape('%s(%d)' % (file, line))

        def chk(R):
            m = aborted(R, pat)
            if m:
                return m
            if file is None and (b'tree_site' in R.err or b'ctor_site' in R.err):
                return 'a plain delete outside any deletion expression is attributed to one: ' + tail(R.err)
        self.expect_stop('f %d %d %d %d %d' % (b.reg, r, fl, fi, ln), chk)


class CHECK(Check):
    id = 'C13'
    rule = ('random histories over all forms of operator new and delete (plain, nothrow, array, sized, with source position, '
            'through the current and the old macros, class members), exhaustion with every kind of new-handler (call count, '
            'outcome and handler afterwards predicted), unrepresentable sizes, throwing constructors, and random trees of '
            'objects whose destructors delete further objects through the macros; ended by the leak report compared in '
            'full, or by a bad release that has to be attributed to the innermost deletion expression. Non-trivial: an '
            'exhaustion, a throwing constructor, a tree of at least two objects, or a stop.')
    quick, thorough = 9000, 80000
    assumptions = ['deletion expressions nest at most DUMA_MAX_DEL_DEPTH - 1 (255) deep, the limit the header sets',
                   'a new-handler throws nothing but bad_alloc, as [new.handler] requires']

    def setup(self):
        self.exe = build.flavours('static', 'shared', 'noleak', 'clang')

    def strategy(self, tier):
        n = 16 if tier == 'quick' else 50
        return st.fixed_dictionaries({
            'flavour': pick('static', 'static', 'static', 'shared', 'noleak', 'clang'),
            'below': pick(0, 0, 1),
            'align': pick(1, 1, 2, 8, 16, 4096),
            'pf': pick(-1, -1, -1, 0, 64),
            'fin': st.tuples(pick('none', 'none', 'tree-bad', 'mismatch', 'tree-double', 'double'), I16, I16, I16).map(list),
            'acts': acts('al:5 hn:4 tr:3 ct:3 ol:3 fr:4 ni:1 ca:1 bu:1 fl:1 rp:1 ve:1', 3, n)})

    def fixed(self):
        return [{'flavour': 'static', 'below': 0, 'align': 1, 'pf': -1, 'fin': [k, 249, 3, 9],
                 'acts': [['tr', 249, 3, 5]]} for k in ('none', 'tree-bad', 'tree-double')]

    def build(self, c):
        h = H(Cfg(align=c['align'], below=c['below'], pf=c['pf']), c['flavour'])
        h.run_acts(c['acts'])
        h.finish(c['fin'])
        return h

    def run(self, c):
        h = self.build(c)
        R = run.run_script(self.exe[c['flavour']], h.script(), h.cfg.env())
        return h.judge(R), h.events > 0 or bool(h.stop), h.labels | {c['flavour']}
