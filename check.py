#!/usr/bin/env python3
"""check.py PROPERTY : decides one property on /repo's current working tree (VERIF_TIER, VERIF_SEED)."""
import importlib, os, sys, traceback
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from lib.core import Ctx, Hang, MachineryError


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = Ctx(prop, tier, seed)
    try:
        mod = importlib.import_module("props." + prop)
        try:
            mod.run(ctx)
        except Hang:
            pass
        rc = ctx.finish()
    except MachineryError as ex:
        print("ERROR of the check (no verdict):", ex, file=sys.stderr)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        if os.environ.get("VF_KEEP"):
            print("kept", ctx.scratch)
        else:
            ctx.cleanup()
    sys.exit(rc)


main()
