#!/usr/bin/env python3
"""mut.py CHECK[,CHECK...] file 'old' 'new' [n] : runs checks against a copy of /repo with one textual change"""
import subprocess, sys, os, shutil, tempfile
checks, f, old, new = sys.argv[1:5]
n = int(sys.argv[5]) if len(sys.argv) > 5 else 0
d = tempfile.mkdtemp(prefix='mut')
r = d + '/repo'
subprocess.check_call(['cp', '-a', '/repo', r])
p = r + '/' + f
s = open(p).read()
parts = s.split(old)
if len(parts) < 2 + n:
    print('pattern not found'); sys.exit(2)
s = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
open(p, 'w').write(s)
for c in checks.split(','):
    e = dict(os.environ, VERIF_REPO=r)
    q = subprocess.run(['./check.py', c], cwd='/verif', env=e, capture_output=True, text=True, errors='replace')
    print('%s %s -> %r: rc %d %s' % (c, f, new[:60], q.returncode, q.stdout.strip().split('\n')[0][:200] + q.stderr[-200:]))
shutil.rmtree(d)
