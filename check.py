#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]"""
import os, sys, traceback
sys.path[:0] = [os.path.join(os.path.dirname(os.path.abspath(__file__)), d) for d in ("lib", "harness")]
import build, common, tlcrun

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    tlcrun.LIMIT = 450 if tier == "quick" else 3000
    res = common.Result(prop, tier)
    try:
        import registry
        registry.CHECKS[prop](res, prop, tier)
    except build.BuildError as e:
        print("BUILD ERROR\n" + str(e)); return 2
    except Exception:
        traceback.print_exc(); return 3
    return res.finish()

sys.exit(main())
