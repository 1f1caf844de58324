from vlib.engine import Check
from vlib.hist import *
from vlib import build, run

AR = 3 * PAGE
MEMCPY, MEMMOVE, STRCPY, STRNCPY, STRCAT, STRNCAT, DUP = range(7)
FN = ['memcpy', 'memmove', 'strcpy', 'strncpy', 'strcat', 'strncat', 'strdup']
MLINE = [110, 111, 112, 113, 114, 115, 108]
HAVE_N = (MEMCPY, MEMMOVE, STRNCPY, STRNCAT)
M64 = (1 << 64) - 1
SEEDS = 8


def pattern(seed):
    k = (seed * 0xD1B54A32D192ED03) & M64
    return bytes(1 + ((((i + 1) * 0x9E3779B97F4A7C15 & M64) ^ k) >> 33 & 255) % 255 for i in range(AR))


PATS = [pattern(i) for i in range(SEEDS)]


class H(Hist):
    fls = (0, 0, 1, 2)
    kinds = None
    ovl = near = done = 0

    def length(self, x):
        c, q = x % 8, x >> 3
        return (q % 4, q % 17, q % 40, q % 300, q % 40, 8 * (q % 20) + (q >> 5) % 3, q % 5000, PAGE + q % 33 - 16)[c]

    def place(self, x, size):
        """an offset for a region of this size: at either end of the arena, at a page boundary, or anywhere"""
        c, q = x % 6, x >> 3
        if c == 0:
            return 0
        if c == 1:
            return AR - size
        if c == 2:
            return PAGE * (1 + q % 2) - size % PAGE + q % 5 - 2
        if c == 3:
            return PAGE * (1 + q % 2) + q % 5 - 2
        return q % AR

    def do_st(self, s1, s2, s3):
        """one call on a freshly filled arena"""
        if self.stop:
            return
        fn = s1 % 7
        fl = self.fls[(s1 >> 3) % len(self.fls)]
        seed = (s1 >> 6) % SEEDS
        mem = bytearray(PATS[seed])
        L = self.length(s2)                      # source bytes without terminator
        n = L
        zeros = []
        isstr = fn not in (MEMCPY, MEMMOVE)
        term = isstr
        if fn in (STRNCPY, STRNCAT):
            m = mix(s1, s2) % 10
            if m > 7:
                L = mix(s2, s3) % 3              # few characters, much padding
            n = (L, L + 1, max(0, L - 1), L + 2 + s3 % 50, L // 2, 0, L + 2 + s3 % 9, L + 2, L + 2 + s3 % 50, L + 1 + s3 % 9)[m]
            if m in (0, 2, 4) and s1 >> 12 & 1:
                term = False                     # the source need not be terminated
                L = n
        ssize = L + (1 if term else 0)           # bytes of the source
        dsize = {MEMCPY: n, MEMMOVE: n, STRCPY: L + 1, STRNCPY: n}.get(fn)
        tail = 0
        if dsize is None:
            dsize = (min(L, n) if fn == STRNCAT else L) + 1
            tail = self.length(s3 >> 2) % 600 if s1 >> 13 & 1 else s3 % 9      # length of the destination string
        s = self.place(s1 >> 4 ^ s3, ssize)
        c = s3 % 8
        q = s3 >> 3
        if c == 0:                                # right behind / in front of the source
            d = s + ssize + q % 3
        elif c == 1:
            d = s - dsize - q % 3
        elif c == 2:
            d = s + (q % 7) - 3
        elif c == 3:
            d = s + ssize - 1 - q % 3
        elif c == 4:
            d = s - dsize + 1 + q % 3
        elif c == 5:
            d = s + q % (ssize + 1)
        elif c == 6:
            d = s - q % (dsize + 1)
        else:
            d = self.place(q, dsize)
        # d is where bytes get written; the string of an append starts before
        e = d
        d = e - tail
        if fn == DUP:
            d, e, dsize = 0, 0, 0
        if isstr and term:
            zeros.append(s + L)
        if fn in (STRCAT, STRNCAT):
            zeros.append(e)
        if any(not 0 <= z < AR for z in zeros) or s < 0 or s + ssize > AR or d < 0 or e + dsize > AR or e > AR:
            return
        for z in zeros:
            mem[z] = 0
        # the strings as they really are now
        if isstr:
            z = mem.find(0, s)
            lim = n if fn in (STRNCPY, STRNCAT) else AR
            sl = (z if z >= 0 else AR) - s
            if sl >= lim:
                sl, sbytes = lim, lim
                if s + sl > AR:
                    return
            elif z < 0:
                return
            else:
                sbytes = sl + 1
        else:
            sl = sbytes = n
        if fn in (STRCAT, STRNCAT):
            e = mem.find(0, d)
            if e < 0:
                return
            dsize = sl + 1
            if fn == STRNCAT and n == 0:
                dsize = sbytes = 0
        elif fn == STRCPY:
            dsize = sl + 1
        if fn != DUP and e + dsize > AR:
            return
        # -- what has to happen
        over = fn not in (MEMMOVE, DUP) and sbytes and dsize and s != e and s < e + dsize and e < s + sbytes
        new = bytearray(mem)
        if fn in (MEMCPY, MEMMOVE):
            new[e:e + n] = mem[s:s + n]
            if fn == MEMCPY and over and e < s and self.cfg.overlap:
                over = False
                self.labels.add('allowed-overlap')
        elif fn == STRNCPY:
            new[e:e + n] = mem[s:s + sl] + bytes(n - sl)
        elif fn != DUP and dsize:
            new[e:e + sl + 1] = mem[s:s + sl] + b'\0'
        self.want('A %d' % seed, 'A')
        if zeros:
            self.want('Z ' + ' '.join(map(str, zeros)), 'Z')
        fi, line = s3 % len(self.files), 1 + s2 % 3000
        t = 'O %d %d %d %d %d %d %d' % (fn, fl, d, s, n, fi, line)
        what = '%s(dest at %d, source at %d, n %d; source %d bytes%s)' % (
            FN[fn], d, s, n, sl, '' if fn < 4 else ', appending at %d' % e)
        k = FN[fn]
        if fn == DUP:
            self.want(t, 'dup', sl + 1, *mem[s:s + sl], 0)
        elif over:
            site = None
            if self.leak:
                site = (self.files[fi], line) if fl == 1 else ('macro_site.c', MLINE[fn]) if fl == 2 else None
                if fl == 0:
                    site = (UNK, 0)
            self.ovl += 1
            k += '-stop-up' if e > s else '-stop-down'
            self.expect_stop(t, lambda R: self.trap(R, fn, d, s, n, site, what))
        else:
            ch = [(i, new[i]) for i in range(AR) if new[i] != mem[i]]

            def exp(f):
                v = list(map(int, f[1:]))
                if v[0] != d:
                    return what + ': returned offset %d' % v[0]
                got = dict(zip(v[2::2], v[3::2]))
                w = dict(ch)
                if got != w:
                    i = min(i for i in set(got) | set(w) if got.get(i) != w.get(i))
                    return what + ': byte %d is %d, expected %d (was %d)' % (i, got.get(i, mem[i]), new[i], mem[i])
            self.op(t, exp)
            if dsize and sbytes:
                gap = s - (e + dsize) if s >= e else e - (s + sbytes)
                if 0 <= gap <= 2:
                    self.near += 1
                    k += '-adjacent'
                elif s == e:
                    k += '-self'
                elif gap < 0 and fn == MEMMOVE:
                    self.near += 1
                    k += '-overlap'
            if e + dsize == AR or s + sbytes == AR:
                self.near += 1
                self.labels.add(FN[fn] + '-at-guard')
        self.done += 1
        self.labels.add(k)

    def trap(self, R, fn, d, s, n, site, what):
        pat = FN[fn] + r'\(([0-9a-fA-FxX]+), ([0-9a-fA-FxX]+)' + (r', %d\)' % n if fn in HAVE_N else r'\)') + r': memory regions overlap'
        m = aborted(R, pat)
        if m:
            return what + ': ' + m
        t = R.err.decode('latin1')
        g = re.search(pat, t)
        a, b = int(g.group(1), 16), int(g.group(2), 16)
        if a - b != d - s or a % PAGE != d % PAGE:
            return what + ': the diagnostic names %x and %x' % (a, b)
        if site is not None and not ' at %s(%d)' % site in t:
            return what + ': the diagnostic `%s` does not name %s(%d)' % (tail(R.err), site[0], site[1])
        if R.stopped is None:
            return what + ': stopped in some other way'
        if R.stopped:
            return what + ': %d bytes had changed before the stop' % R.stopped
        return None


class CHECK(Check):
    id = 'C12'
    rule = ('random sequences of the seven functions (plain symbols, attributed entry points and header macros) over a '
            'three-page arena between inaccessible pages, refilled for every call; placements aim at either end, page '
            'boundaries, adjacency, equality and every kind of overlap, with terminated and unterminated bounded '
            'sources; results compared with a byte-level model of the C standard, overlaps must stop with the '
            'diagnostic before any byte changed. Non-trivial: a call adjacent to the other region or a guard page, an '
            'overlapping move, or a stop.')
    quick, thorough = 8000, 150000

    def setup(self):
        self.exe = build.flavours('static', 'shared', 'noleak', 'fast')

    def strategy(self, tier):
        return st.fixed_dictionaries({
            'flavour': pick('static', 'static', 'shared', 'noleak'),
            'overlap': pick(0, 1),
            'below': pick(0, 1),
            'acts': acts('st', 1, 12 if tier == 'quick' else 40)})

    def fixed(self):
        # counts beyond 32 bits; 7: a move upwards
        return [{'flavour': 'fast', 'overlap': i % 2, 'below': 0, 'acts': [], 'big': [fn, i % 2, n]}
                for n in ((1 << 32, 1 << 31, 3 << 31) if self.tier == 'thorough' else (1 << 32,))
                for i, fn in enumerate((STRNCPY, STRNCAT, 7, MEMCPY, STRCAT, MEMMOVE, STRCPY, DUP))]

    def build(self, c):
        h = H(Cfg(below=c['below'], overlap=c['overlap'], fill=-1 if 'big' in c else 255), 
              'static' if c['flavour'] == 'fast' else c['flavour'])
        h.op('sil')
        h.run_acts(c['acts'])
        if 'big' in c:
            h.labels.add('4GB-' + (FN + ['memmove up'])[c['big'][0]])
            h.want('al %d' % (1 << 30), 'al')
            h.want('big %d %d %d' % tuple(c['big']), 'big', 0)
        return h

    def run(self, c):
        h = self.build(c)
        R = run.run_script(self.exe[c['flavour']], h.script(), h.cfg.env())
        return h.judge(R), h.near > 0 or h.ovl > 0, h.labels | {c['flavour'], 'overlap:%d' % c['overlap']}
