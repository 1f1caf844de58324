from vlib.engine import Check
from vlib.hist import *
from vlib import build, run


def site_pat(file, line):
    return re.escape(file) + r'\(%d\)' % line


class H(Hist):
    def do_fl(self, s1, s2, s3):
        if s1 % 2:
            self.switch(align=1 << (s2 % 9))
        else:
            self.switch(below=1 - self.below)

    def do_nu(self, s1, s2, s3):
        """null pointers can be released and checked anywhere"""
        act = (0, 10, 11, 12, 13, 16, 17, 14, 15, 21)[s1 % 10]
        fl = s2 % 3
        if fl == 2 and act in (11, 13, 16, 17, 14, 15) or (fl and act in (16, 17)) or (act >= 10 and act != 21 and not self.leak):
            fl = 0
        if not self.leak and fl == 1:
            fl = 0
        self.want('x %d 3 0 0 %d 0 %d 0' % (act, fl, 1 + s3), 'x', 0, 'ok')
        self.labels.add('null')

    def do_gb(self, s1, s2, s3):
        """blocks of several pages, released: with a budget the older ones are partly given back"""
        size = 1 + s2 % 30000
        for i in range(2 + s1 % 12):
            b = self.alloc((MALLOC, NEW, NEWA)[s1 // 12 % 3], size, fl=0, sel=s3)
            self.release(b, fl=0, sel=s3)
            size += (s3 % 7) * 1024
        self.labels.add('give-back')

    def do_zz(self, s1, s2, s3):
        api = self.apis[s1 % len(self.apis)]
        if api in (STRDUP, ALIGNED):
            api = MALLOC
        b = self.alloc(api, 0, 16, fl=s2 % 2, sel=s3)
        self.labels.add('zero')

    def finish(self, fin):
        kind, s1, s2, s3 = fin
        leak = self.leak
        if kind in ('double', 'recheck', 'redead'):
            ok = lambda b: b.size > 0
            b = self.pickd(s1, ok)
            if b is None or self.cfg.pf == 0:
                kind = 'inside'
        if kind in ('inside', 'front', 'mismatch', 'behind'):
            b = self.pickb(s1, lambda b: b.size > (1 if kind == 'inside' else 0))
            if b is None:
                kind = 'stack'
        self.labels.add('fin:' + kind)
        if kind == 'none':
            return
        if kind in ('double', 'recheck', 'redead', 'mismatch'):
            a = lambda R: re.escape('%x' % self.addr[b.reg])
            if kind == 'mismatch':
                # any release of another family
                rel = [r for r in (0, 1, 10, 11, 12, 13, 14, 15, 16, 17) if REL[r][0] != b.fam]
                r = rel[s2 % len(rel)]
                if r == 1 and s3 % 2:
                    # resize instead of release
                    fl, fi, ln, file, line = self.site(REALLOC0, (s3 >> 1) % 3, s3)
                    text = 'r %d %d %d %d %d %d' % (b.reg, self.nreg, size_of(s2), fl, fi, ln)
                else:
                    fl, fi, ln, file, line = self.rel_site(r, (s3 >> 1) % 4, s3)
                    text = 'f %d %d %d %d %d' % (b.reg, r, fl, fi, ln)
                alias = {'scalar new': 'new', 'vector new[]': 'new', }
                pat = r'mismatch.*' + re.escape(NAME[b.api])
                if leak and b.line:
                    pat += r'.*' + site_pat(b.file, b.line)
                pat += '.*' + re.escape(REL[r][1])
                if leak and line and file:
                    pat += '.*' + site_pat(file, line)
                self.labels.add('mis:%s/%s' % (b.fam, REL[r][0]))
                return self.expect_stop(text, lambda R: aborted(R, pat))
            if kind == 'double':
                r = RELS_OF[b.fam][s2 % len(RELS_OF[b.fam])]
                fl, fi, ln, file, line = self.rel_site(r, s3 % 4, s3)
                text = 'f %d %d %d %d %d' % (b.reg, r, fl, fi, ln)
            elif kind == 'recheck':
                text = 'c %d %d' % (b.reg, 2 if s2 % 2 else 0)
            else:
                fl, fi, ln, file, line = self.site(REALLOC0, s2 % 3, s2)
                text = 'r %d %d %d %d %d %d' % (b.reg, self.nreg, size_of(s3), fl, fi, ln)

            def chk(R):
                pat = a(R) + r'.*already freed'
                if leak and self.cfg.pf == -1 and self.cfg.maxa == -1:
                    # and says whether this is where it was released or where it was allocated
                    if b.relline:
                        pat += '((?!alloc).)*' + site_pat(b.relfile, b.relline)
                    elif b.line:
                        pat += '.*alloc.*' + site_pat(b.file, b.line)
                elif self.cfg.pf != -1 or self.cfg.maxa != -1:
                    pat = a(R) + r'.*(already freed|not from malloc)'
                return aborted(R, pat)
            def again(R):
                p = self.addr.get(b.reg)  # has the address been handed out again?
                if p and (self.cfg.pf, self.cfg.maxa) != (-1, -1) and any(
                        x is not b and self.addr.get(x.reg) == p and x.born > b.died and x.state == 'live' for x in self.blks):
                    return 'any'     # the release of that block, or a mismatch
            return self.expect_stop(text, chk, again)
        act = (0, 10, 12, 20, 21, 11, 13, 1)[s2 % 8]
        fl = (s3 >> 3) % 3 if act in (0, 10, 12, 20, 21) else 0
        if fl == 1 and (not leak or act == 21) or (fl == 2 and act in (10, 12) and not leak):
            fl = 0
        if kind in ('inside', 'front', 'behind'):
            if kind == 'behind':  # the guard page, or where the next block is or would be
                text = 'x %d 5 %d %d %d 0 77 %d' % (act, b.reg, 4096 * (s3 % 4) + (s3 >> 2) % 3 // 2 * 8, fl, 1 + s1 % 5000)
            elif kind == 'inside':
                d = 1 + s3 % (b.size - 1)
            else:
                d = -(1 + s3 % 64)
            if kind != 'behind':
                text = 'x %d 0 %d %d %d 0 77 %d' % (act, b.reg, d, fl, 1 + s1 % 5000)
        elif kind == 'stack':
            text = 'x %d 1 0 %d %d 0 77 %d' % (act, s3, fl, 1 + s1 % 5000)
        elif kind == 'static':
            text = 'x %d 2 0 %d %d 0 77 %d' % (act, s3, fl, 1 + s1 % 5000)
        else:
            ad = (1, 8, 4096, 0x400000, 0x7ffffffff000, 0x123456789abc, 0xffff800000000000 - (1 << 64), -1, -4096, 16)[s3 % 10]
            text = 'x %d 4 0 %d %d 0 77 %d' % (act, ad, fl, 1 + s1 % 5000)
        at = len(self.lines)
        if kind == 'front' and any(x is not b for x in self.blks):
            pass

        def chk(R):
            # the address is logged before the call
            m = re.search(r' %d x (\d+)' % at, R.rawlog.decode('latin1'))
            if not m:
                return 'no address was logged'
            pat = re.escape('%x' % int(m.group(1))) + r'.*not from'
            if kind == 'behind':  # could be one of the churn's blocks, or the table of the blocks
                pat += r"|already freed|mismatch.*'duma allocate"
            if kind == 'inside' and leak and act not in (20,):
                pat += '.*' + re.escape('%x' % self.addr[b.reg])
                if b.line:
                    pat += '.*' + site_pat(b.file, b.line)
            return aborted(R, pat)
        self.expect_stop(text, chk)


class CHECK(Check):
    id = 'C07'
    rule = ('random valid histories over every allocation and release form (plain, with call sites, through the macros, '
            'sized delete, resize to zero, null pointers), none of which may be stopped, ended by one bad call: second '
            'release, check or resize of a released block, release, check or resize of an address inside or in front of '
            'a block, on the stack, static or arbitrary, or a release through another family; the process has to be '
            'stopped inside that call with the diagnostic the model predicts. Non-trivial: the case ends in a bad call, '
            'or at least three good releases happened.')
    quick, thorough = 6000, 80000

    def setup(self):
        self.exe = build.flavours('static', 'shared', 'noleak', 'fast')

    def strategy(self, tier):
        n = 20 if tier == 'quick' else 60
        return st.fixed_dictionaries({
            'flavour': pick('static', 'static', 'static', 'shared', 'noleak'),
            'below': pick(0, 0, 1),
            'align': pick(1, 1, 2, 8, 16, 4096),
            'pf': pick(-1, -1, -1, 0, 16, 64, 200, 4096),
            'maxa': pick(-1, -1, -1, 1500),
            'freq': pick(0, 0, 1, 3),
            'fin': st.tuples(pick('none', 'double', 'mismatch', 'inside', 'recheck', 'redead', 'mismatch', 'front', 'behind', 'stack',
                                  'static', 'wild', 'double', 'mismatch'), I16, I16, I16).map(list),
            'acts': acts('al:9 fr:6 re:2 wr:1 nu:1 zz:1 ck:1 ca:1 bu:1 be:1 ch:1 fl:1 gb:2 hu:1', 4, n)})

    def fixed(self):
        return [{'flavour': 'fast', 'below': i % 2, 'align': 8, 'pf': -1, 'maxa': -1, 'freq': 0, 'fin': [k, 17 + i, 9 * i, i],
                 'acts': crowd('al:9 fr:6 re:2 wr:1 nu:1 zz:1 ck:1', i)}
                for i, k in enumerate(('none', 'double', 'mismatch', 'inside', 'recheck'))]

    def build(self, c):
        h = H(Cfg(align=c['align'], below=c['below'], pf=c['pf'], maxa=c['maxa'], freq=c['freq']),
              'static' if c['flavour'] == 'fast' else c['flavour'])
        h.run_acts(c['acts'])
        h.finish(c['fin'])
        return h

    def run(self, c):
        h = self.build(c)
        R = run.run_script(self.exe[c['flavour']], h.script(), h.cfg.env())
        return h.judge(R), bool(h.stop) or len(h.dead()) >= 3, h.labels | {c['flavour']}
