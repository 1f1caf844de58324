#!/opt/veriftools/pyvenv/bin/python3
"""tools/seeded.py [ID...] : every planted bug against the check of its property
(and --all: against every check), on a copy of /repo; prints the matrix"""
import json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = V + '/seeded'
allc = '--all' in sys.argv
ids = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.listdir(S))
checks = [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]
for i in ids:
    prop = json.load(open('%s/%s/meta.json' % (S, i)))['property']
    tmp = tempfile.mkdtemp(prefix='seeded')
    try:
        r = tmp + '/repo'
        shutil.copytree('/repo', r, symlinks=True, ignore=shutil.ignore_patterns('_build', '.git'))
        subprocess.check_call(['git', 'init', '-q'], cwd=r)
        subprocess.check_call(['git', 'apply', '%s/%s/patch.diff' % (S, i)], cwd=r)
        res = []
        for c in (checks if allc else [prop]):
            t = time.time()
            p = subprocess.run([V + '/check.py', c], env=dict(os.environ, VERIF_REPO=r, VERIF_SEED=os.environ.get('VERIF_SEED', '1')),
                               cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            hit = p.returncode == 1 and b'VIOLATION property=' + c.encode() in p.stdout
            if hit or not allc or p.returncode not in (0, 1):
                res.append('%s:%s(%ds)' % (c, 'caught' if hit else 'rc%d' % p.returncode, time.time() - t))
        print(i, prop, ' '.join(res), flush=True)
    finally:
        shutil.rmtree(tmp)
