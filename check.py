#!/usr/bin/env python3
"""check.py <property> [quick|thorough]"""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vm import engine  # noqa: E402


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    mod = importlib.import_module("vm.props.%s" % prop.lower())
    run = engine.Run(prop, tier, seed)
    try:
        mod.check(run)
        rc = run.finish(getattr(mod, "MIN_EXEC", {}).get(tier, 10))
    except engine.HarnessError as e:
        print("ERROR: %s" % e)
        if run.viol:
            # a violation was observed before the harness failed: report it
            try:
                rc = run.finish(0)
            except Exception:
                rc = 2
            if rc == 0:
                rc = 2
        else:
            rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        if not os.environ.get("VERIF_KEEP"):
            run.cleanup()
        else:
            print("kept", run.work)
    sys.exit(rc)


if __name__ == "__main__":
    main()
