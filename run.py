#!/usr/bin/env python3-vt
"""Entry point of all checks.

  python3-vt run.py C01 [--tier quick|thorough] [--seed N]   run a check
  python3-vt run.py C01 --replay FILE                        rerun one case

The seed is VERIF_SEED, the tier VERIF_TIER, unless given.
"""
import argparse
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from vlib import engine  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", choices=["quick", "thorough"],
                    default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--worker", type=int)
    ap.add_argument("--out")
    ap.add_argument("--part")
    a = ap.parse_args()
    seed = abs(a.seed)
    engine.add_repo_to_path()
    if a.worker is not None:
        engine.limit_memory()
        engine.Worker(a.property, a.tier, seed, a.worker, a.out, a.part).run()
        return 0
    if a.replay:
        msg = engine.replay(a.property, a.replay)
        if msg is None:
            print("%s: case passes" % a.property)
            return 0
        print("%s: %s" % (a.property, msg))
        print("VIOLATION property=%s replay=%s" % (a.property, a.replay))
        return 1
    return engine.main_parent(a.property, a.tier, seed)


if __name__ == "__main__":
    sys.exit(main())
