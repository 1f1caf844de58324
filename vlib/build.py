"""Builds the library under test and the executors from /repo's working tree.

Sources are copied to a scratch build directory below /verif/.build (ignored by
git), so that nothing is ever written to /repo."""
import fcntl, glob, hashlib, os, shutil, subprocess, sys, time

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARN = os.path.join(VERIF, 'harness')
BUILD = os.path.join(VERIF, '.build')

CFLAGS = ['-g', '-O0', '-Wall', '-Wextra', '-U_FORTIFY_SOURCE', '-w']
LIBSRC = ['duma.c', 'dumapp.cpp', 'print.c', 'sem_inc.c']


class BuildError(Exception):
    pass


def repo_sources():
    fs = [f for f in sorted(glob.glob(REPO + '/*.[ch]'))
          if os.path.basename(f) not in ('duma_config.h', 'verinfo.h')]
    fs += sorted(f for f in glob.glob(REPO + '/src/*') if os.path.isfile(f))
    return fs


def _digest(paths, extra):
    h = hashlib.sha256(repr(extra).encode())
    for f in paths:
        h.update(f.encode())
        with open(f, 'rb') as fd:
            h.update(fd.read())
    return h.hexdigest()[:16]


def sh(cmd, cwd, env=None):
    e = {'PATH': '/usr/local/bin:/usr/bin:/bin', 'LC_ALL': 'C', 'HOME': '/root'}
    if env:
        e.update(env)
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stdout.decode('latin1')[-3000:]))
    return r.stdout


class Dir:
    """A build directory keyed by the contents of everything that goes in."""

    def __init__(self, tag, extra, files):
        os.makedirs(BUILD, exist_ok=True)
        self.path = os.path.join(BUILD, '%s-%s' % (tag, _digest(files, extra)))
        self.tag = tag

    def __enter__(self):
        self.lock = open(os.path.join(BUILD, '.lock-' + os.path.basename(self.path)), 'w')
        fcntl.flock(self.lock, fcntl.LOCK_EX)
        self.done = os.path.exists(self.path + '/.ok')
        if not self.done:
            shutil.rmtree(self.path, ignore_errors=True)
            os.makedirs(self.path)
        return self

    def finish(self):
        open(self.path + '/.ok', 'w').close()

    def __exit__(self, *a):
        self.lock.close()


def prune(keep=60):
    """keep the build area small: sources change with every planted bug"""
    try:
        ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD) if not d.startswith('.')]
        ds.sort(key=os.path.getmtime)
        for d in ds[:-keep]:
            if time.time() - os.path.getmtime(d) > 1800:
                shutil.rmtree(d, ignore_errors=True)
    except OSError:
        pass


SCHED = ['-fsanitize=thread', '-mllvm', '-tsan-instrument-func-entry-exit=0', '-mllvm', '-tsan-instrument-atomics=0']


def libdir(opts=(), so=False, cflags=(), cc='gcc', std=('-std=c++98',)):
    """opts: createconf -D options. Returns a directory with the headers and
    libduma.a or libduma.so built from them."""
    opts, cflags = tuple(opts), tuple(cflags)
    files = repo_sources()
    with Dir('lib', (opts, so, cflags, CFLAGS, cc, std, 4), files) as d:
        if d.done:
            return d.path
        os.makedirs(d.path + '/src')
        for f in files:
            sub = '/src/' if '/src/' in f[len(REPO):] else '/'
            shutil.copy(f, d.path + sub + os.path.basename(f))
        open(d.path + '/verinfo.h', 'w').write('#define GIT_SOURCE_VERSION "verif"\n')
        sh(['gcc', '-g', '-O0'] + ['-D' + o for o in opts] + ['createconf.c', '-o', 'createconf'], d.path)
        sh(['./createconf'], d.path)
        if not os.path.getsize(d.path + '/duma_config.h'):
            raise BuildError('createconf wrote no duma_config.h')
        pic = ['-fPIC', '-DPIC', '-DDUMA_SO_LIBRARY'] if so else []
        objs, procs = [], []
        for s in LIBSRC:
            o = s.split('.')[0] + '.o'
            if s.endswith('.cpp'):
                cmd = ['g++' if cc == 'gcc' else 'clang++'] + list(std)
            else:
                cmd = [cc]
            cmd += ['-I' + d.path] + CFLAGS + list(cflags) + pic + ['-c', 'src/' + s, '-o', o]
            procs.append((cmd, subprocess.Popen(cmd, cwd=d.path, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
            objs.append(o)
        for cmd, p in procs:
            out = p.communicate()[0]
            if p.returncode:
                raise BuildError('%s\n%s' % (' '.join(cmd), out.decode('latin1')[-3000:]))
        if so:
            sh(['gcc' if any(o.endswith('NO_CPP_SUPPORT') for o in opts) else 'g++', '-g', '-shared', '-Wl,-soname,libduma.so', '-o', 'libduma.so'] + objs + ['-lpthread', '-lc'], d.path)
        else:
            sh(['ar', 'crs', 'libduma.a'] + objs, d.path)
        d.finish()
        return d.path


def so_define(so):
    return ['-DDUMA_SO_LIBRARY'] if so else []


# how CMake and the GNUmakefile compile: CMake's build types, and clang with its own C++ standard
MODES = {'': ((), 'gcc', ('-std=c++98',)),
         'Release': (('-O3', '-DNDEBUG'), 'gcc', ('-std=c++98',)),
         'RelWithDebInfo': (('-O2', '-DNDEBUG'), 'gcc', ('-std=c++98',)),
         'MinSizeRel': (('-Os', '-DNDEBUG'), 'gcc', ('-std=c++98',)),
         'clang': ((), 'clang', ()),
         'clang-Release': (('-O3', '-DNDEBUG'), 'clang', ())}


def executor(opts=(), so=False, defs=(), sched=False, mode=''):
    """path of the script executor linked with the library built with opts;
    sched: with every memory access of the library instrumented"""
    lib = libdir(opts, so, SCHED, 'clang') if sched else libdir(opts, so, *MODES[mode])
    if sched:
        defs = tuple(defs) + ('VEXEC_SCHED',)
    hs = [HARN + '/' + f for f in ('exec.c', 'exec.h', 'exec_cpp.cpp', 'exec_macro.c', 'coop.c', 'coop.h')]
    nocpp = any(o.endswith('NO_CPP_SUPPORT') for o in opts)
    with Dir('exec', (lib, so, tuple(defs), nocpp, 3), hs) as d:
        exe = d.path + '/exec'
        if d.done:
            return exe
        base = ['-I' + lib, '-I' + HARN, '-g', '-O0', '-w', '-U_FORTIFY_SOURCE', '-fno-builtin', '-D_GNU_SOURCE'] \
            + so_define(so) + ['-D' + x for x in defs]
        if so:
            base += ['-fPIC']
        cmds = [['gcc'] + base + ['-c', HARN + '/exec.c', '-o', 'exec.o'],
                ['gcc'] + base + ['-c', HARN + '/coop.c', '-o', 'coop.o'],
                ['gcc'] + base + ['-c', HARN + '/exec_macro.c', '-o', 'exec_macro.o']]
        if not nocpp:
            cmds.append(['g++'] + base + ['-c', HARN + '/exec_cpp.cpp', '-o', 'exec_cpp.o'])
        ps = [(c, subprocess.Popen(c, cwd=d.path, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)) for c in cmds]
        for c, p in ps:
            out = p.communicate()[0]
            if p.returncode:
                raise BuildError('%s\n%s' % (' '.join(c), out.decode('latin1')[-3000:]))
        objs = ['exec.o', 'coop.o', 'exec_macro.o'] + ([] if nocpp else ['exec_cpp.o'])
        link = ['gcc' if nocpp else 'g++', '-g', '-rdynamic', '-o', 'exec'] + objs
        if so:
            link += ['-L' + lib, '-lduma', '-Wl,-rpath,' + lib]
        else:
            link += [lib + '/libduma.a']
        sh(link + ['-lpthread'], d.path)
        d.finish()
        return exe


def trans():
    """the programs of C19: {(language, mode): (path, extra environment, prefix)}"""
    so_gnu, so_full = libdir(GNU_OPTS, so=True), libdir((), so=True)
    st_gnu, st_full = libdir(GNU_OPTS), libdir(())
    more = {'init': ('DUMA_EXPLICIT_INIT',), 'nog': ('DUMA_NO_GLOBAL_MALLOC_FREE',),
            'nol': ('DUMA_LIB_NO_LEAKDETECTION', 'DUMA_LIB_PREFER_ATEXIT')}
    for m in list(more):
        try:
            more[m] = libdir(more[m])
        except BuildError as e:
            print('%s left out, the library does not build: %s' % (m, str(e)[-500:]), file=sys.stderr)
            del more[m]
    H, O = ['-DWITH_HEADER'], ['-DDUMA_SO_LIBRARY']
    comp = {'plain': [], 'hso': H + O + ['-I' + so_full], 'hst': H + ['-I' + st_gnu], 'off': H + ['-DDUMA_NO_DUMA', '-I' + st_gnu]}
    comp.update((m, H + ['-DCALL_INIT'] * (m == 'init') + ['-I' + x]) for m, x in more.items())

    def shared(d):
        return ['-L' + d, '-lduma', '-Wl,-rpath,' + d]

    def whole(d):
        return ['-Wl,--whole-archive', d + '/libduma.a', '-Wl,--no-whole-archive']
    link = {'plain': ('plain', []), 'off': ('off', []), 'so': ('plain', shared(so_gnu)), 'hso': ('hso', shared(so_full)),
            'st': ('plain', whole(st_full)), 'hst': ('hst', [st_gnu + '/libduma.a'])}
    link.update((m, (m, [x + '/libduma.a'])) for m, x in more.items())
    src = [HARN + '/trans.c', HARN + '/trans.cpp']
    script = REPO + '/duma.sh'
    with Dir('trans', (so_gnu, so_full, st_gnu, st_full, repr(more), repr(comp), repr(link), 6), src + [script]) as d:
        if not d.done:

            def go(cmds):
                ps = []
                for c in cmds:
                    ps.append((c, subprocess.Popen(c, cwd=d.path, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                                   env={'PATH': '/usr/bin:/bin', 'LC_ALL': 'C'})))
                for c, p in ps:
                    o = p.communicate()[0]
                    if p.returncode:
                        raise BuildError('%s\n%s' % (' '.join(c), o.decode('latin1')[-3000:]))
            base = ['-w', '-O0', '-U_FORTIFY_SOURCE', '-D_GNU_SOURCE', '-fno-builtin']
            go([['gcc'] + base + f + ['-c', src[0], '-o', 'c.%s.o' % m] for m, f in comp.items()] +
               [['g++', '-std=gnu++20'] + base + f + ['-c', src[1], '-o', 'pp.%s.o' % m] for m, f in comp.items()])
            go([['g++', '-o', '%s_%s' % (l, m), '%s.%s.o' % (l, o)] + x + ['-lpthread']
                for l in ('c', 'pp') for m, (o, x) in link.items()])
            for f in os.listdir(d.path):
                if f.endswith('.o'):
                    os.remove(d.path + '/' + f)
            os.makedirs(d.path + '/pre')
            os.symlink(so_full + '/libduma.so', d.path + '/pre/libduma.so.0.0.0')
            shutil.copy(script, d.path + '/duma.sh')
            d.finish()
        res = {}
        for l in ('c', 'pp'):
            for m in link:
                res[l, m] = ('%s/%s_%s' % (d.path, l, m), {}, [])
            p = res[l, 'plain'][0]
            res[l, 'preload'] = (p, {'LD_PRELOAD': so_gnu + '/libduma.so'}, [])
            res[l, 'preload leak detection'] = (p, {'LD_PRELOAD': so_full + '/libduma.so'}, [])
            res[l, 'duma.sh'] = (p, {'LD_LIBRARY_PATH': d.path + '/pre'}, ['/bin/sh', d.path + '/duma.sh'])
        return res


def envexec():
    src = HARN + '/envexec.c'
    with Dir('envexec', (1,), [src]) as d:
        if not d.done:
            sh(['gcc', '-O1', '-o', 'envexec', src], d.path)
            d.finish()
        return d.path + '/envexec'


GNU_OPTS = ('DUMA_SO_NO_LEAKDETECTION', 'DUMA_NO_STRERROR')


def flavour(name):
    """the named executors used by the checks"""
    if name == 'static':
        return executor(GNU_OPTS)
    if name == 'shared':           # as CMake configures it: leak detection in the .so
        return executor((), so=True)
    if name == 'shared_noleak':    # as the GNUmakefile configures it
        return executor(GNU_OPTS, so=True)
    if name == 'noleak':
        return executor(('DUMA_LIB_NO_LEAKDETECTION',))
    if name == 'getenv':
        return executor(GNU_OPTS + ('DUMA_LIB_PREFER_GETENV',))
    if name == 'clang':            # and a newer C++ standard
        return executor(GNU_OPTS, mode='clang')
    if name == 'fast':
        return executor(GNU_OPTS, mode='Release')
    if name == 'sched':
        return executor(GNU_OPTS, sched=True)
    if name == 'sched_noleak':
        return executor(('DUMA_LIB_NO_LEAKDETECTION',), sched=True)
    raise KeyError(name)


def flavours(*names):
    """{name: executor}; a flavour other than the usual one that does not build is
    left out (whether every configuration builds is for C20 to say)"""
    r = {}
    for n in names:
        try:
            r[n] = flavour(n)
        except BuildError as e:
            if n == 'static':
                raise
            print('flavour %s left out, it does not build: %s' % (n, str(e)[-500:]), file=sys.stderr)
    return r


if __name__ == '__main__':
    t = time.time()
    for n in ('static', 'shared', 'shared_noleak', 'noleak'):
        print(n, flavour(n), round(time.time() - t, 1))
