#!/usr/bin/env python3
"""check.py <property id>: run one static check against /repo's working tree."""
import importlib, os, sys, traceback
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path[:0] = [os.path.join(ROOT, "engine"), os.path.join(ROOT, "checks")]
import report


def main():
    if len(sys.argv) != 2:
        print("usage: check.py ID")
        return 2
    pid = sys.argv[1].upper()
    chk = report.Check(pid)
    try:
        mod = importlib.import_module(pid.lower())
        mod.run(chk)
    except Exception as e:
        traceback.print_exc()
        chk.error("%s: %s" % (type(e).__name__, e))
    return chk.finish()


if __name__ == "__main__":
    sys.exit(main())
