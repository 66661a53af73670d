#!/usr/bin/env python3
"""check.py ID: decides one property on the current tree of /repo.

Exit 0: held on everything explored.  Exit 1: violated, with a VIOLATION line.
Exit 2: the machinery itself failed.
"""
import os
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import core
from checks import CHECKS


def main():
    prop = sys.argv[1]
    c = core.Ctx(prop)
    try:
        CHECKS[prop](c)
        rc = c.finish()
    except core.Broken as e:
        print("BROKEN property=%s %s" % (prop, e))
        rc = 2
    except Exception:  # noqa
        traceback.print_exc()
        rc = 2
    finally:
        c.close()
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == "__main__":
    main()
