"""Runs one script (or any program) in a process of its own, observing it."""
import fcntl, os, signal, time

_base_env = {'PATH': '/usr/bin:/bin', 'LC_ALL': 'C', 'HOME': '/nonexistent',
             # libstdc++ would otherwise keep a block of its own from start-up on
             'GLIBCXX_TUNABLES': 'glibcxx.eh_pool.obj_count=0'}


def _mem(name, data=b''):
    fd = os.memfd_create(name)
    if data:
        os.write(fd, data) if len(data) < 1 << 20 else _wall(fd, data)
        os.lseek(fd, 0, 0)
    return fd


def _wall(fd, data):
    o = 0
    while o < len(data):
        o += os.write(fd, data[o:])


def _slurp(fd):
    n = os.fstat(fd).st_size
    out = b''
    while len(out) < n:
        b = os.pread(fd, n - len(out), len(out))
        if not b:
            break
        out += b
    os.close(fd)
    return out


class Result:
    __slots__ = ('status', 'out', 'err', 'loglines', 'log', 'ready', 'ended', 'rawlog', 'fault', 'stopped')

    def sig(self):
        return os.WTERMSIG(self.status) if os.WIFSIGNALED(self.status) else 0

    def code(self):
        return os.WEXITSTATUS(self.status) if os.WIFEXITED(self.status) else None

    def how(self):
        s = self.sig()
        if s:
            try:
                n = signal.Signals(s).name
            except ValueError:
                n = str(s)
            return 'killed by ' + n
        return 'exit status %d' % self.code()


def spawn(argv, env, fds, cwd=None, closed=()):
    """fds: {target fd: source fd}"""
    acts = []
    # move the sources out of the way of the targets first
    tmp = {}
    for t, s in fds.items():
        n = os.dup2(s, 200 + t)
        tmp[t] = n
    for t, n in tmp.items():
        acts.append((os.POSIX_SPAWN_DUP2, n, t))
    for n in tmp.values():
        acts.append((os.POSIX_SPAWN_CLOSE, n))
    for c in closed:
        acts.append((os.POSIX_SPAWN_CLOSE, c))
    if cwd:
        argv = ['/usr/bin/env', '-C', cwd] + argv
    pid = os.posix_spawn(argv[0], argv, env, file_actions=acts,
                         setsigdef=[signal.SIGPIPE, signal.SIGALRM, signal.SIGILL, signal.SIGSEGV, signal.SIGTERM],
                         setsigmask=[])
    for n in tmp.values():
        os.close(n)
    return pid


def wait(pid, timeout):
    """executors carry their own alarm; this is the net below it"""
    dl = time.monotonic() + timeout
    d = 0.0002
    while True:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            return st
        if time.monotonic() > dl:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            return signal.SIGALRM
        time.sleep(d)
        d = min(d * 2, 0.02)


def run_script(exe, script, env=None, closed=(), environ=None, envexec=None):
    """environ: the complete environment, a list of arbitrary entries, in this
    order (needs envexec)"""
    e = dict(_base_env)
    argv, fds = [exe], {}
    if environ is not None:
        argv = [envexec, exe]
        fds[5] = _mem('e', b''.join(x.encode('latin1') + b'\0' for x in environ))
    else:
        e['DUMA_DISABLE_BANNER'] = '1'
        if env:
            e.update(env)
    s = _mem('s', script.encode('latin1'))
    l, o, r = _mem('l'), _mem('o'), _mem('r')
    for fd in (o, r):   # or else threads could overwrite each other's output
        fcntl.fcntl(fd, fcntl.F_SETFL, os.O_APPEND)
    n = os.open('/dev/null', os.O_RDONLY)
    try:
        fds.update({0: n, 1: o, 2: r, 3: s, 4: l})
        pid = spawn(argv, e, fds, closed=closed)
        _, st = os.waitpid(pid, 0)
    finally:
        if 5 in fds:
            os.close(fds[5])
        os.close(n)
        os.close(s)
    R = Result()
    R.status = st
    R.out, R.err, log = _slurp(o), _slurp(r), _slurp(l)
    R.rawlog = log
    R.log = {}
    R.ready = R.ended = False
    R.fault = R.stopped = None
    R.loglines = lines = log.decode('latin1').split('\n')
    for ln in lines:
        if ln == 'READY':
            R.ready = True
        elif ln == 'END':
            R.ended = True
        elif 'FAULT ' in ln:
            R.fault = ln
        elif 'STOPPED ' in ln:
            R.stopped = int(ln.split()[-1])
        else:
            i = ln.find(' ', 1)
            if i > 0 and (ln[0] == ' ' or ln[0] == 't' and ln[1:i].isdigit()):
                try:
                    R.log[int(ln[1:i])] = ln[i + 1:].strip()
                except ValueError:
                    pass
    # an unfinished last line belongs to the op that did not return
    last = lines[-1]
    if last:
        i = last.find(' ', 1)
        if last[0] == ' ' and i > 0 and last[1:i].isdigit():
            R.log.pop(int(last[1:i]), None)
    return R


def run_prog(argv, env, stdin=b'', cwd=None, timeout=30, environ=None):
    e = dict(_base_env)
    if environ is not None:
        e = dict(environ)
    else:
        e['DUMA_DISABLE_BANNER'] = '1'
        e.update(env or {})
    i, o, r = _mem('i', stdin), _mem('o'), _mem('r')
    for fd in (o, r):
        fcntl.fcntl(fd, fcntl.F_SETFL, os.O_APPEND)
    pid = spawn(argv, e, {0: i, 1: o, 2: r}, cwd=cwd)
    st = wait(pid, timeout)
    os.close(i)
    R = Result()
    R.status, R.out, R.err = st, _slurp(o), _slurp(r)
    return R
