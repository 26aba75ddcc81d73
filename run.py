#!/usr/bin/env python3
"""python3-vt run.py <property> [quick|thorough]   decide one property of the tree in /repo (VERIF_REPO overrides)
   python3-vt run.py --replay <file>              run a recorded counterexample on the real library
   python3-vt run.py --setup                      check the tools and warm nothing that a check relies on"""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
if 'z3' not in sys.modules:
    try:
        import z3  # noqa
    except ImportError:
        for py in ('/opt/veriftools/pyvenv/bin/python3', 'python3-vt'):
            if py != sys.executable:
                os.execvp(py, [py] + sys.argv)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
from symex import driver
sys.exit(driver.main(sys.argv[1:]))
