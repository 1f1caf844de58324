"""Correct programs are generated as sequences of acts over the allocation and
string functions, library routines that allocate, threads, processes and C++,
with random endings; each is run with the system's allocator and in every way of
using the debugger, and what it prints and how it ends is compared."""
import os, shutil, signal, subprocess, tempfile
from vlib.engine import Check
from vlib.hist import acts, pick, I16, st
from vlib import build

LIMIT = 25
C_ACTS = ('m:6 c:4 r:6 R:1 A:2 M:2 P:2 V:1 W:1 d:3 f:4 u:1 w:3 k:4 z:2 Z:2 y:3 s:3 b:1 h:1 L:14 T:1 O:1 F:1 U:1 G:1 J:1 E:1 X:1 I:1 e:1')
P_ACTS = 'C:6 L:6 A:6 T:1 O:1 F:1'
ENVS = {'DUMA_PROTECT_BELOW': ['0', '1'], 'DUMA_FILL': ['0', '255', '-1', '90'], 'DUMA_ALIGNMENT': ['1', '4', '8', '16', '64'],
        'DUMA_PROTECT_FREE': ['0', '-1', '100', '100000'], 'DUMA_MALLOC_FAILEXIT': ['0', '1'], 'DUMA_SKIPCOUNT_INIT': ['0', '3'],
        'DUMA_REPORT_ALL_LEAKS': ['0', '1'], 'DUMA_MEMCPY_OVERLAP': ['0', '1'], 'DUMA_CHECK_FREQ': ['0', '1', '7'],
        'DUMA_DISABLE_BANNER': ['0', '1'], 'DUMA_OUTPUT_DEBUG': ['0', '1'], 'DUMA_MAX_ALLOC': ['-1', '500'], 'DUMA_FREE_ACCESS': ['0', '1'],
        'DUMA_MALLOC_0_STRATEGY': ['2', '3'], 'DUMA_NEW_0_STRATEGY': ['2', '3'], 'DUMA_OUTPUT_FILE': ['dumaout'], 'LC_ALL': ['C.UTF-8'],
        'GLIBCXX_TUNABLES': ['glibcxx.eh_pool.obj_count=0'], 'DUMA_SHOW_ALLOC': ['1'], 'DUMA_SLACKFILL': ['0', '255', '170']}
KEYS = sorted(ENVS)


class CHECK(Check):
    id = 'C19'
    rule = ('programs of up to 40 acts (heap operations on shared blocks, 40 routines of the C library, 30 of the C++ '
            'library and language, threads, processes, signal handlers, coroutines, exit handlers, constructors before '
            'main) and 14 endings in C and 9 in C++, run with the system\'s allocator, linked with and preloaded with the '
            'shared library in both usual configurations, through duma.sh, linked with the static library, with the '
            'headers in five configurations and with the off-switch, under random settings; the output, the exit status '
            'and, where the debugger writes nothing there, the error output have to be the same. '
            'Non-trivial: the program has at least five acts.')
    quick, thorough = 700, 14000
    shrink_s = 60

    def setup(self):
        self.progs = build.trans()
        self.modes = {l: [m for k, m in self.progs if k == l and m != 'plain'] for l in ('c', 'pp')}

    def strategy(self, tier):
        n = 40 if tier == 'quick' else 80
        env = st.lists(st.tuples(st.integers(0, len(KEYS) - 1), I16).map(list), max_size=6)
        quiet = pick(0, 0, 1)
        end = st.tuples(pick(0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12), I16, I16).map(list)
        def seq(kinds, n):
            return st.one_of(acts(kinds, 1, n), acts(kinds, n // 4, n))
        return st.one_of(
            st.fixed_dictionaries({'lang': pick('c'), 'acts': seq(C_ACTS, n), 'end': end, 'env': env, 'quiet': quiet,
                                   'args': st.lists(pick('a', 'two words', '', '*', '$HOME', '-x', "it's", '"q"', 'a\nb'), max_size=3)}),
            st.fixed_dictionaries({'lang': pick('pp'), 'acts': seq(P_ACTS, n // 2), 'end': end, 'env': env, 'quiet': quiet}))

    def run(self, c):
        lang = c['lang']
        env = {'PATH': '/usr/bin:/bin', 'HOME': '/nonexistent', 'LC_ALL': 'C'}
        for k, v in c['env']:
            o = ENVS[KEYS[k]]
            env[KEYS[k]] = o[v % len(o)]
        if c['end'][1] & 1 and 'DUMA_ALIGNMENT' not in env:
            env['DUMA_ALIGNMENT'] = '16'
        if c['quiet']:
            env['DUMA_OUTPUT_STDERR'] = env['DUMA_OUTPUT_STDOUT'] = '0'
        text = ''.join('%s %d %d %d\n' % tuple(a) for a in c['acts']) + 'Q %d %d %d\n' % tuple(c['end'])
        labels = {lang, 'end:%s%d' % (lang, c['end'][0])} | {lang + ':' + (a[0] + str(a[1] % 40) if a[0] == 'L' and lang == 'c' else a[0]) for a in c['acts']}
        d = tempfile.mkdtemp(prefix='vtrans')
        try:
            with open(d + '/s', 'w') as f:
                f.write(text)
            want = self.one(d, lang, 'plain', env, c)
            if isinstance(want, str):
                return 'generator error: ' + want, False, labels
            if want[0] in (96, 97, 98, 99) or want[0] in (-signal.SIGSEGV, -signal.SIGBUS):
                return 'generator error: the program itself ends with %s' % (want[0],), False, labels
            for m in self.modes[lang]:
                got = self.one(d, lang, m, env, c)
                if isinstance(got, str):
                    return '%s: %s' % (m, got), True, labels
                if got[1] != want[1]:
                    a, b = want[1].split(b'\n'), got[1].split(b'\n')
                    k = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
                    return '%s: prints %r where the program without the debugger prints %r (ended with %s; stderr: %s)' % (
                        m, b[k:k + 2], a[k:k + 2], got[0], got[2][-300:].decode('latin1')), True, labels
                if got[0] != want[0]:
                    return '%s: ends with %d, without the debugger with %d (stderr: %s)' % (
                        m, got[0], want[0], got[2][-300:].decode('latin1')), True, labels
                if (c['quiet'] or m == 'off') and got[2] != want[2]:
                    return '%s: writes %r to standard error, without the debugger %r' % (m, got[2][-200:], want[2][-200:]), True, labels
            return None, len(c['acts']) >= 5, labels
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def one(self, d, lang, mode, env, c):
        exe, more, prefix = self.progs[lang, mode]
        w = d + '/' + mode.replace(' ', '_')
        os.mkdir(w)
        p = subprocess.Popen(prefix + [exe, d + '/s'] + c.get('args', []), cwd=w, env=dict(env, **more), stdin=subprocess.PIPE,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
        try:
            o, e = p.communicate(b'first line\nsecond, a longer line of the input\nthe last', timeout=LIMIT)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
            return 'did not end within %d s' % LIMIT
        return p.returncode, o, e
