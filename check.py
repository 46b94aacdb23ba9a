#!/usr/bin/env python3
"""check.py <property id>: decides one property of /repo's current tree (see DESIGN.md)."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vlib import core  # noqa: E402


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == "--setup":
        import shutil
        for t in ("clang", "clang++", "gcc", "g++", "python3"):
            if not shutil.which(t):
                print("missing tool: " + t)
                return 2
        os.makedirs(core.CACHE, exist_ok=True)
        return 0
    prop = sys.argv[1].upper()
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = core.Ctx(prop, tier, seed)
    try:
        mod = importlib.import_module("checks." + prop.lower())
        mod.run(ctx)
        return core.finish(ctx)
    except core.CheckError as e:
        print("CHECK-ERROR %s" % e, file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        if not os.environ.get("HV_KEEP"):
            ctx.cleanup()


sys.exit(main())
