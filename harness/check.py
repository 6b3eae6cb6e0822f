"""
usage: python3 harness/check.py C01     (from /verif)

Exit 0: the property held on everything explored. Exit 1 and a VIOLATION
line: it does not. Exit 2: the machinery itself failed.
"""

import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True

from harness import common  # noqa: E402


def main():
    prop = sys.argv[1]
    try:
        mod = importlib.import_module("harness.chk_" + prop.lower())
        chk = common.Check(prop)
        with common.Scratch("verif-" + prop) as scratch:
            mod.run(chk, scratch)
        sys.exit(chk.finish())
    except common.Machinery as m:
        print("MACHINERY FAILURE: %s" % m)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)


if __name__ == "__main__":
    main()
