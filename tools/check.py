#!/usr/bin/env python3
"""check.py <property id>: decide one property on /repo's current working tree."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "props"))
import vlib


def main():
    prop = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = sys.argv[2]
    try:
        mod = importlib.import_module(prop.lower())
        ctx = vlib.Ctx(prop)
        mod.check(ctx)
        sys.exit(ctx.finish(assumptions=getattr(mod, "ASSUMPTIONS", [])))
    except vlib.ToolError as e:
        print("TOOL-ERROR %s: %s" % (prop, e), flush=True)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)


main()
