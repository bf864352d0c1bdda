#!/usr/bin/env python3
"""run.py <property>: the check of one property.  VERIF_SEED and VERIF_TIER are taken from the environment.
Exit 0: held on everything explored; 1: VIOLATION; 2: the check itself failed."""
import os
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import vlib
import checks


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if tier not in ("quick", "thorough"):
        tier = "quick"
    c = vlib.Ctx(prop, tier, seed)
    try:
        checks.CHECKS[prop](c)
        return c.finish()
    except vlib.CheckError as e:
        print("check of %s failed: %s" % (prop, e), file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        if os.environ.get("VERIF_KEEP"):
            print("kept", c.tmp)
        else:
            c.close()


sys.exit(main())
