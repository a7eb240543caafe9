#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]   runs the check of one property
   check.py --setup                          verifies that the framework is complete (nothing to install)"""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, os.path.join(HERE, "checks"))
sys.dont_write_bytecode = True

import build


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == "--setup":
        import selftest
        return selftest.main()
    pid = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = sys.argv[2]
    mod = importlib.import_module(pid.lower())
    try:
        mod.main()
    except build.BuildError as e:
        sys.stderr.write("BUILD FAILED: %s\n" % e)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
