#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough] [--seed N]: decide one property on /repo's working tree."""
import sys, os, importlib, glob
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from harness import core


def find(pid):
    for f in glob.glob(os.path.join(core.VERIF, "comps", pid.lower() + "_*.py")):
        m = importlib.import_module("comps." + os.path.basename(f)[:-3])
        return m.check, getattr(m, "LEVEL", "model_checking")
    sys.exit("no check for " + pid)


if __name__ == "__main__":
    sys.exit(core.main(find))
