#!/usr/bin/env python3
"""check.py <property id>: decides one property of /repo's current tree (see DESIGN.md). VERIF_TIER=quick|thorough, VERIF_SEED=n."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
from core import Ctx, CheckError, Violated
import registry

def main():
    pid = sys.argv[1]
    ctx = Ctx(pid)
    try:
        registry.CHECKS[pid](ctx)
        rc = ctx.finish()
    except Violated:
        rc = ctx.finish()
    except CheckError as e:
        print("CHECK ERROR property=%s: %s" % (pid, e), flush=True)
        rc = 1 if ctx.violations else 2
        if ctx.violations: ctx.finish()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)

if __name__ == "__main__":
    main()
