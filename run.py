#!/usr/bin/env python3
"""python3 run.py <property> [--tier quick|thorough] [--seed N] | --replay F"""
import argparse
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "harness"))
import core  # noqa: E402

if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int,
                    default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        sys.exit(core.replay(a.replay))
    try:
        rc = core.Check(a.prop, a.tier, a.seed).run()
    except core.Infra as e:
        print("INFRASTRUCTURE ERROR", e)
        rc = 3
    sys.exit(rc)
