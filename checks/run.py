import importlib
import sys

from sim.harness import run_check

if __name__ == '__main__':
    prop = sys.argv[1]
    mod = importlib.import_module('checks.' + prop.lower())
    sys.exit(run_check(mod, sys.argv[2:]))
