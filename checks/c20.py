import itertools
import os
import random
import re
from concurrent.futures import ThreadPoolExecutor
from vlib.engine import Check
from vlib.hist import *
from vlib import build, run
from checks.c03 import H as Dead
from checks.c07 import H as Bad
from checks.c08 import H as Slack
from checks.c09 import H as Leaks
from checks.c12 import H as Mem
from checks.c13 import H as Objects

LIB = ['DUMA_LIB_NO_LEAKDETECTION', 'DUMA_LIB_NO_CPP_SUPPORT', 'DUMA_LIB_PREFER_ATEXIT', 'DUMA_LIB_PREFER_GETENV',
       'DUMA_LIB_NO_HANG_MSG', 'DUMA_NO_STRERROR', 'DUMA_EXPLICIT_INIT', 'DUMA_NO_GLOBAL_MALLOC_FREE',
       'DUMA_NO_THREAD_SAFETY']
SO = ['DUMA_SO_NO_LEAKDETECTION', 'DUMA_SO_NO_CPP_SUPPORT', 'DUMA_SO_PREFER_ATEXIT', 'DUMA_SO_PREFER_GETENV',
      'DUMA_SO_NO_HANG_MSG', 'DUMA_NO_STRERROR']
# options the banner does not speak of
UNNAMED = ('DUMA_LIB_NO_HANG_MSG', 'DUMA_SO_NO_HANG_MSG', 'DUMA_NO_STRERROR')


def cover(opts, k, seed):
    """option sets: none, each alone, all, and enough for every combination of k values"""
    n = len(opts)
    rows = [tuple(0 for _ in opts), tuple(1 for _ in opts)] + [tuple(int(i == j) for j in range(n)) for i in range(n)]
    cs = list(itertools.combinations(range(n), k))
    todo = {(c, v) for c in cs for v in itertools.product((0, 1), repeat=k)}
    for r in rows:
        todo -= {(c, tuple(r[i] for i in c)) for c in cs}
    rnd = random.Random(seed)
    while todo:
        best = max((tuple(rnd.randrange(2) for _ in opts) for _ in range(60)),
                   key=lambda r: sum((c, tuple(r[i] for i in c)) in todo for c in cs))
        todo -= {(c, tuple(best[i] for i in c)) for c in cs}
        rows.append(best)
    return [[o for o, x in zip(opts, r) if x] for r in dict.fromkeys(rows)]


def has(opts, name):
    return any(o.endswith(name) for o in opts)


class H(Leaks, Dead, Slack, Bad, Mem):
    """the guarantees of C01, C03, C04, C07, C08, C09 and C12 at once, in any build"""
    zero = False
    mixed = True
    slacks = probes = 0

    def __init__(self, cfg, opts, so, supp):
        self.opts = opts
        self.noglobal = has(opts, 'NO_GLOBAL_MALLOC_FREE')
        self.nocpp = has(opts, 'NO_CPP_SUPPORT')
        self.explicit = has(opts, 'EXPLICIT_INIT')
        self.atexit = has(opts, 'PREFER_ATEXIT') and not has(opts, 'NO_LEAKDETECTION')
        self.supp = supp
        self.inited = not self.explicit
        self.pre = set()
        real = cfg
        super().__init__(Cfg() if self.explicit else cfg,
                         ('shared' if so else 'static') + ('_noleak' if has(opts, 'NO_LEAKDETECTION') else ''))
        self.real = real
        if self.nocpp:
            self.apis = C_APIS
        if self.noglobal:
            # and without leak detection there are no macros either
            self.fls = (1, 1, 2) if self.leak else (1,)

    # without global replacement the plain names are those of the C library
    def site(self, api, fl, sel):
        if self.noglobal and not self.leak and api < 10:
            fl = 1
        r = super().site(api, fl, sel)
        return (1,) + r[1:] if self.noglobal and api < 10 and r[0] not in (1, 2) else r

    def rel_site(self, api, fl, sel):
        if self.noglobal and api < 2 and (fl not in (1, 2) or not self.leak):
            fl = 1
        r = super().rel_site(api, fl, sel)
        return (1,) + r[1:] if self.noglobal and api < 2 and r[0] not in (1, 2) else r

    def fresh(self, b):
        if not self.inited:
            self.pre.add(b)
        if b.size <= 20000:
            self.write(b, 0, b.size, b.reg)
        else:
            self.adopt(b)
        if self.slack_known():
            self.look(b)

    def slack_known(self):
        return True

    def look(self, b):
        # the fill at the time of the allocation counts
        keep, self.cfg.slack = self.cfg.slack, b.slack
        Slack.look(self, b)
        self.cfg.slack = keep

    def adopt(self, b):
        Prog.adopt(self, b)

    def resized(self, old, new):
        if not self.inited:
            self.pre.add(new)
        self.look(new)

    def released(self, b):
        self.probe(b)

    def do_init(self):
        if not self.explicit:
            return
        self.want('in', 'in')
        if self.inited:
            return
        self.inited = True
        e = self.real.env()
        if 'DUMA_ALIGNMENT' in e:
            self.align = self.real.align
        if 'DUMA_PROTECT_BELOW' in e:
            self.below = self.real.below
        if 'DUMA_FILL' in e:
            self.fill = self.real.fill
        self.slack = self.real.slack
        self.cfg = self.real

    def do_in(self, *a):
        """a further call of the initialisation does nothing"""
        if self.inited:
            self.do_init()

    def do_fl(self, s1, s2, s3):
        if s1 % 2:
            self.switch(align=1 << (s2 % 9))
        else:
            self.switch(below=1 - self.below)

    def do_tr(self, s1, s2, s3):
        """objects whose destructors delete further ones, again and again"""
        if not self.inited or self.nocpp or self.noglobal or self.cfg.pf != -1:
            return
        for i in range(1 + s1 % 8):
            n, t, _, _ = Objects.tree(self, s1 + i, s2, s3 + 77 * i)
            self.want(t, 'tr', 'ok')
            self.nalloc += n + 1
        self.labels.add('trees')

    def do_us(self, s1, s2, s3):
        b = self.pickb(s1)
        if b is not None:
            self.want('q %d %d' % (b.reg, 1 + s2 % 2 * self.leak if self.noglobal else s2 % 3), 'q', b.size)

    def do_bu(self, s1, s2, s3):
        if self.noglobal or not self.inited:
            api = self.apis[s2 % len(self.apis)]
            for i in range(1 + s1 % 70):
                b = self.alloc(api, 1 + size_of(s3) % 500, 16, fl=self.fls[s1 % len(self.fls)], sel=s2)
                self.adopt(b)
                if not self.inited:
                    self.pre.add(b)
        else:
            super().do_bu(s1, s2, s3)

    def do_ch(self, s1, s2, s3):
        if not self.noglobal:
            return super().do_ch(s1, s2, s3)
        for i in range(s1 % 40):
            b = self.alloc(self.apis[s2 % len(self.apis)], 1 + size_of(s3) % 500, 16, fl=1, sel=s2)
            self.release(b, fl=1, sel=s3)

    def expected(self):
        ls, info, noinfo = super().expected()
        if not self.pre:
            return ls, info, noinfo
        ls = [b for b in ls if b not in self.pre]
        return ls, len(ls), noinfo - sum(1 for b in self.pre if b.state == 'live' and not (self.cfg.reportall or b.line > 0))

    def ending(self, kind, code):
        if self.atexit and (self.supp or not self.inited):
            n = self.reports
            self.expected = lambda: ([], 0, 0)
            self.end(kind, code)
            del self.expected
            self.reports = n
        else:
            self.end(kind, code)

        def msg(R):
            t = R.err.decode('latin1')
            n = t.count('Registering with atexit()'), t.count('Skipping registering with atexit()')
            say = self.atexit and self.inited and not has(self.opts, 'NO_HANG_MSG')
            if n != (int(say and not self.supp), int(say and bool(self.supp))):
                return 'messages about atexit(): %s' % (n,)
        self.final.append(msg)

    def blind(self, f, fin):
        """blocks from before the initialisation have no position"""
        keep, self.leak = self.leak, self.leak and not self.pre
        f(self, fin)
        self.leak = keep
        if self.stop and self.pre:
            chk = self.stop[2]

            def judged(R):
                keep, self.leak = self.leak, False
                r = chk(R)
                self.leak = keep
                return r
            self.stop = self.stop[:2] + (judged,)

    def banner(self, exe):
        """the start-up text names the library's kind and options"""
        self.labels.add('banner')
        R = run.run_script(exe, 'in\n' if self.explicit else '', dict(self.real.env(), DUMA_DISABLE_BANNER='0'))
        t = R.err.decode('latin1')
        k = re.search(r'DUMA \((\w+)\)', t)
        if not k or k.group(1) != ('shared' if 'shared' in self.flavour else 'static'):
            return 'the banner of the %s library names another kind: %r' % (self.flavour, t[:100])
        o = re.search(r'Configuration: (.*)', t)
        o = sorted(re.findall(r'\w+', o.group(1))) if o else []
        want = sorted(re.sub('^DUMA_(LIB_|SO_)?', '', x) for x in self.opts if x not in UNNAMED)
        if o != want:
            return 'the banner names the options %s, the library was built with %s' % (o, want)

    def finish(self, fin):
        kind, s1, s2, s3 = fin
        if kind == 'syserr':
            if self.noglobal:
                return False
            self.op('mp %d' % (1 + s1 % 4))
            i = self.nreg
            text = "System Error Number 'errno' from Standard C Library is 12\n" if has(self.opts, 'NO_STRERROR') else \
                'Cannot allocate memory'
            self.expect_stop(['a %d 0 0 %d 0 0 0' % (i + k, 1 + s2 % 9000) for k in range(4)],
                             lambda R: aborted(R, r'mprotect\(\) failed: ' + text))
            return True
        if kind == 'assert':
            f, n = self.files[s1 % len(self.files)], 1 + s2

            def chk(R):
                if R.sig() != 11:
                    return 'a false assertion: %s; stderr: %s' % (R.how(), tail(R.err))
                if not 'DUMA: DUMA_ASSERT(x == %d) failed at\n%s(%d)\n' % (s3, f, n) in R.err.decode('latin1'):
                    return 'the message about a false assertion is not there: ' + tail(R.err)
            self.expect_stop('as %d %d "x == %d' % (s1 % len(self.files), n, s3), chk)
            return True
        if kind in ('free', 'resize', 'check', 'all'):
            # the damaged block has to have the slack fill in force
            keep = self.blks
            self.blks = [b for b in self.blks if b.slack == self.slack]
            keepn = self.nreg
            self.blind(Slack.finish, [kind, s1, s2, s3])
            self.blks = keep
            self.nreg = max(keepn, self.nreg)
            return bool(self.stop)
        if kind == 'mismatch':
            if self.nocpp or not self.pickb(s1, lambda b: b.size > 0):
                return False
        elif not self.pickd(s1, lambda b: b.size > 0) or self.cfg.pf == 0:
            return False
        self.blind(Bad.finish, [kind, s1, s2, s3])
        return bool(self.stop)


class CHECK(Check):
    id = 'C20'
    rule = ('builds of the library with the options of the configuration generator (none, all, each alone and a covering '
            'array, static and shared; thorough: every combination) are each exercised with random histories that check '
            'guards, contents, slack fill, inaccessibility after release, the complete leak reports at frame ends and at '
            'exit, messages, the start-up text, and end with a bad release, damage, a refused system call or normally; with explicit initialisation the history '
            'starts before it. Non-trivial: at least one option is set and a guard, a release and an end were judged.')
    quick, thorough = 6000, 60000

    def setup(self):
        seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.exe, self.broken = {}, {}
        if self.tier == 'quick':
            cs = [(o, 0) for o in cover(LIB, 3, seed)] + [(o, 1) for o in cover(SO, 2, seed)]
        else:
            cs = [([o for i, o in enumerate(L) if m >> i & 1], so) for L, so in ((LIB, 0), (SO, 1)) for m in range(1 << len(L))]
        ms = list(build.MODES)
        self.cfgs = [[o, so, ms[(i + seed) % len(ms)]] for i, (o, so) in enumerate(cs)]
        self.cfgs += [[[], so, m] for m in ms[1:] for so in (0, 1)]
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(lambda c: self.get(*c), self.cfgs))

    def get(self, opts, so, mode=''):
        k = ' '.join(opts), so, mode
        if k not in self.exe and k not in self.broken:
            try:
                self.exe[k] = build.executor(tuple(opts), so=bool(so), mode=mode)
            except build.BuildError as e:
                self.broken[k] = str(e)
        return k

    def strategy(self, tier):
        n = 16 if tier == 'quick' else 50
        return st.fixed_dictionaries({
            'build': st.sampled_from(self.cfgs),
            'below': pick(0, 0, 1),
            'align': pick(1, 1, 2, 8, 16, 64, 4096),
            'pf': pick(-1, -1, -1, 0, 64),
            'freq': pick(0, 0, 1, 5),
            'slack': pick(0xAA, 0x55, 1),
            'fill': pick(255, -1, 7),
            'all': pick(0, 0, 1),
            'supp': pick(0, 0, 0, 1),
            'pre': acts('al:6 fr:2 re:2 gu:1 ck:1 ca:1 fl:1 bu:1 rp:1', 0, 8),
            'init': pick(1, 1, 1, 1, 1, 0),
            'acts': acts('al:9 fr:5 re:3 gu:3 ve:2 wr:1 ck:1 ca:1 us:1 bu:2 be:1 ch:1 rp:2 pd:1 lo:1 fl:1 in:1 st:2 tr:1', 2, n),
            'end': st.tuples(pick('none', 'none', 'double', 'mismatch', 'recheck', 'redead', 'free', 'resize', 'check', 'all', 'assert', 'syserr'),
                             I16, I16, I16).map(list),
            'exit': st.tuples(pick(0, 1, 2), st.integers(0, 255)).map(list)})

    def fixed(self):
        base = {'below': 0, 'align': 1, 'pf': -1, 'freq': 0, 'slack': 0x55, 'fill': 255, 'all': 0, 'supp': 0, 'init': 1,
                'pre': [['al', i * 32, 80 + 8 * i, 64 * i] for i in range(5)] + [['re', 1, 80, 1], ['fr', 2, 0, 0]],
                'acts': [['al', i + (i << 5), 80 + 8 * i, 64 * i] for i in range(20)] + [['gu', i, 0, 0] for i in range(14)] +
                [['re', 1, 800, 1], ['fr', 0, 0, 0], ['fr', 3, 0, 0], ['bu', 90, 0, 80], ['rp', 0, 0, 0], ['ca', 0, 0, 0],
                        ['tr', 55, 2, 9], ['tr', 63, 6, 5]],
                'exit': [1, 3]}
        l = []
        for c in self.cfgs:
            for b in (0, 1):
                for e in (['none', 0, 0, 0], ['double', 0, 0, 0], ['free', 1, 1, 1], ['assert', 1, 1, 1], ['syserr', 0, 9, 9])[b * 2:2 + b * 3]:
                    l.append(dict(base, build=c, below=b, end=e))
        return l

    def build(self, c):
        h = H(Cfg(align=c['align'], below=c['below'], pf=c['pf'], freq=c['freq'], slack=c['slack'], fill=c['fill'],
                  reportall=c['all']), c['build'][0], c['build'][1], c['supp'])
        if any(a[0] == 'st' for a in c['acts']):
            h.op('sil')
        if h.explicit:
            h.run_acts(c['pre'])
            if c['init']:
                h.do_init()
        for a in c['acts']:
            if not h.stop:
                h.apply(a)
        if h.stop:
            self.bad = True
            return h
        for b in h.live()[:40]:
            if not any(b in bl for bl in h.bursts) and b.written:
                h.verify(b)
        self.bad = c['end'][0] != 'none' and h.finish(c['end'])
        if not self.bad:
            h.ending(*c['exit'])
        return h

    def run(self, c):
        k = self.get(*c['build'])
        if k in self.broken:
            return 'the library or a program using it does not build with %s (%s): %s' % (
                k[0] or 'no options', ('shared ' if k[1] else 'static ') + k[2], self.broken[k][-600:]), False, set()
        h = self.build(c)
        e = h.real.env()
        if c['supp']:
            e['DUMA_SUPPRESS_ATEXIT'] = '1'
        R = run.run_script(self.exe[k], h.script(), e)
        if c['end'][1] % 8 == 0:
            b = h.banner(self.exe[k])
            if b:
                return b, True, h.labels
        nt = bool(c['build'][0] or k[2]) and bool(h.dead()) and h.slacks > 0
        return h.judge(R), nt, h.labels | {'so' if k[1] else 'lib'} | set(o.replace('DUMA_', '') for o in c['build'][0]) | \
            {'end:' + c['end'][0] if self.bad else 'end:normal', 'opts:%d' % len(c['build'][0]), 'mode:' + k[2]}
