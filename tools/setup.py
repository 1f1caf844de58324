#!/opt/veriftools/pyvenv/bin/python3
"""builds the usual flavours once (every check does so again when /repo changed)"""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import build
for n in ('static', 'shared', 'shared_noleak', 'noleak', 'sched', 'sched_noleak'):
    print(n, build.flavour(n))
build.trans()
