#!/opt/veriftools/pyvenv/bin/python3
import os, resource, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
from vlib import engine
sys.exit(engine.main(sys.argv[1:]))
