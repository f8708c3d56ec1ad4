#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] [--replay SCRIPT]: decide one property."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "gen"))
import vt


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    a = sys.argv[2:]
    while a:
        x = a.pop(0)
        if x == "--tier": tier = a.pop(0)
        elif x == "--replay": replay = os.path.abspath(a.pop(0))
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    import registry
    modname, fn = registry.CHECKS[prop]
    ctx = vt.Ctx(prop, tier, seed)
    ctx.replay = replay
    try:
        getattr(importlib.import_module(modname), fn)(ctx)
        rc = ctx.finish()
    except vt.CheckError as e:
        print("CHECK-ERROR: %s" % e, flush=True)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        ctx.cleanup()
    sys.exit(rc)


main()
