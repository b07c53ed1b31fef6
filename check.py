#!/usr/bin/env python3
"""check.py PROPERTY: decide one property on /repo's working tree.

Exit 0: it held on everything explored.  Exit 1: VIOLATION line and a replay file."""
import os
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import core  # noqa: E402
import checklib  # noqa: E402
import plans  # noqa: E402

if __name__ == "__main__":
    pid = sys.argv[1]
    if pid not in plans.PLANS:
        print("unknown property", pid)
        sys.exit(2)
    r = checklib.Run(pid, plans.LEVEL.get(pid, "model_checking"))
    try:
        plans.PLANS[pid](r)
        rc = r.finish()
    except core.Machinery as e:
        print("%s: the check could not run: %s" % (pid, str(e)[-3000:]))
        rc = 3
    except Exception:
        traceback.print_exc()
        rc = 3
    finally:
        r.work.close()
    sys.exit(rc)
