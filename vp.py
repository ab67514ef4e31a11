#!/opt/venv/bin/python
"""check runner:  vp.py check PROP [--tier quick|thorough]   |  vp.py replay FILE  |  vp.py list"""
import sys, os
os.environ.setdefault('OMP_NUM_THREADS', '1')
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from pyded import runner
if __name__ == '__main__':
    sys.exit(runner.main(sys.argv[1:]))
