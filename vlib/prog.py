"""Compiles and runs generated programs."""
import os, shutil, signal, subprocess, tempfile
from . import build

LIMIT = 20
ENV = {'PATH': '/usr/local/bin:/usr/bin:/bin', 'LC_ALL': 'C', 'HOME': '/nonexistent',
       'GLIBCXX_TUNABLES': 'glibcxx.eh_pool.obj_count=0'}


class Out:
    def __init__(self, rc, out, err):
        self.rc, self.out, self.err = rc, out, err

    def how(self):
        if self.rc is None:
            return 'did not end within %d s' % LIMIT
        if self.rc < 0:
            return 'killed by ' + signal.Signals(-self.rc).name
        return 'exit status %d' % self.rc


class Work:
    """a scratch directory for one case"""

    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix='vprog')
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)

    def compile(self, name, src, flags, libs=(), cc='gcc', ext='.c'):
        """-> None, or what the compiler said"""
        f = self.dir + '/' + name + ext
        with open(f, 'w') as fd:
            fd.write(src)
        drv = {'gcc': 'g++', 'clang': 'clang++'}[cc] if ext == '.cpp' else cc
        r = subprocess.run([drv, '-pipe', '-w', *flags, f, '-o', self.dir + '/' + name, *libs], cwd=self.dir,
                           env={'PATH': ENV['PATH'], 'LC_ALL': 'C', 'TMPDIR': self.dir},
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            return r.stdout.decode('latin1').replace(self.dir, '')[:800]

    def run(self, name, args=(), env=None, prefix=()):
        e = dict(ENV)
        e.update(env or {})
        p = subprocess.Popen([*prefix, self.dir + '/' + name, *args], cwd=self.dir, env=e, stdin=subprocess.DEVNULL,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
        try:
            o, s = p.communicate(timeout=LIMIT)
            return Out(p.returncode, o, s)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            o, s = p.communicate()
            return Out(None, o, s)
