"""Decide one property:  run.py C01 [--tier quick|thorough] [--seed N]
[--scale X] [--only SCENARIO] [--replay FILE]"""
import argparse
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

from vmon import harness  # noqa: E402

if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--only")
    ap.add_argument("--replay")
    a = ap.parse_args()
    try:
        rc = harness.run_property(
            a.prop, a.tier, a.seed, replay=a.replay, scale=a.scale, only=a.only
        )
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
