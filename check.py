#!/usr/bin/python3
"""Decide one property: python3 check.py <id>."""
import importlib, os, sys
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(here, 'lib'), os.path.join(here, 'checks')]
import vf

if __name__ == '__main__':
    pid = sys.argv[1]
    if pid == 'setup':
        print(vf.build())
        sys.exit(0)
    m = importlib.import_module(pid.lower())
    sys.exit(vf.execute(pid, getattr(m, 'LEVEL', 'model_checking'), m.main))
