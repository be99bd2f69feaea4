#!/opt/venv/bin/python
import sys
sys.dont_write_bytecode = True
import os
if sys.prefix != '/opt/venv' and os.path.exists('/opt/venv/bin/python'):
    os.execv('/opt/venv/bin/python', ['/opt/venv/bin/python'] + sys.argv)
import warnings
warnings.simplefilter("ignore")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from symx import runner
sys.exit(runner.main(sys.argv[1:]))
