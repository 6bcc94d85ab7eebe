#!/usr/bin/env python3
"""run.py PROPERTY: decides one property on the current tree of /repo.

Exit 0: it held on everything explored; 1: a VIOLATION line says where it is
broken; anything else: the check could not decide."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import Ctx, CheckError, Hangs
import props


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = Ctx(prop, tier, seed)
    try:
        rc = props.CHECKS[prop](ctx)
        if rc is None:
            rc = ctx.finish()
        return rc
    except Hangs:
        return ctx.finish()
    except CheckError as e:
        print("ERROR: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 3
    finally:
        ctx.close()


sys.exit(main())
