#!/opt/venv/bin/python -B
"""check.py <property> [--replay FILE]: decide one property of /repo; VERIF_TIER and VERIF_SEED as in MANIFEST.json."""
import json, os, sys, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness"))


def main():
    import core
    prop = sys.argv[1]
    ctx = core.Context(prop, os.environ.get("VERIF_TIER", "quick"), int(os.environ.get("VERIF_SEED", "1") or 1))
    try:
        import checks
    except Exception:
        traceback.print_exc()
        return 2
    try:
        if "--replay" in sys.argv:
            return checks.replay(ctx, json.load(open(sys.argv[sys.argv.index("--replay") + 1])))
        checks.CHECKS[prop](ctx)
    except Exception:
        traceback.print_exc()
        print("error of the check itself; no verdict")
        return 2
    return core.finish(ctx)


if __name__ == "__main__":
    sys.exit(main())
