#!/usr/bin/env python3
"""check.py C01..C18 [--replay FILE] | --setup      (VERIF_TIER, VERIF_SEED)"""
import importlib, json, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vlib


def main():
    if sys.argv[1] == "--setup":
        import setup_all
        setup_all.main()
        return 0
    pid = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    mod = importlib.import_module(pid.lower())
    ctx = vlib.Ctx(pid, tier, seed)
    rc = 0
    try:
        if "--replay" in sys.argv:
            mod.replay(ctx, json.load(open(sys.argv[sys.argv.index("--replay") + 1])))
        else:
            mod.check(ctx)
    except vlib.Violation as v:
        ctx.violations.append(str(v))
        print("VIOLATION property=%s replay=%s" % (pid, v.replay))
        print("  " + str(v))
        rc = 1
    except vlib.ToolError as e:
        print("TOOL-ERROR: " + str(e))
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    try:
        ctx.evidence("model_checking", getattr(mod, "ASSUMPTIONS", []))
    finally:
        ctx.close()
    print("%s: %s" % (pid, {0: "held on everything explored", 1: "violated", 2: "error of the check"}[rc]))
    return rc


if __name__ == "__main__":
    sys.exit(main())
