#!/opt/veriftools/pyvenv/bin/python3
"""show.py ID replay.json : the script, the log and the streams of one case"""
import importlib, json, sys, os
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import run
ck = importlib.import_module('checks.' + sys.argv[1].lower()).CHECK()
ck.tier = 'quick'
ck.setup()
c = json.load(open(sys.argv[2]))
c = c.get('case', c)
orig = run.run_script
def rs(exe, script, *a, **k):
    R = orig(exe, script, *a, **k)
    print('env', a, {x: k[x] for x in k})
    for i, l in enumerate(script.split('\n')):
        if not l.startswith('F '):
            print(i, l[:150], '=>', (R.log.get(i) or '-')[:150])
    print(R.how(), R.fault)
    print('OUT', R.out[-1500:].decode('latin1'))
    print('ERR', R.err[-3000:].decode('latin1'))
    return R
run.run_script = rs
print(ck.run(c))
