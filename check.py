#!/usr/bin/env python3
"""usage: check.py PROPERTY | check.py --replay FILE | check.py --build
Decides one property: model checks the design modules, executes the scenarios on /repo/src and validates the
recorded traces against the TLA+ specification.  VERIF_SEED and VERIF_TIER select randomness and depth."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness"))
import core  # noqa: E402


def main():
    a = sys.argv[1:]
    if a and a[0] == "--build":
        core.build()
        return 0
    if a and a[0] == "--replay":
        return core.replay(a[1])
    from gen import PROPS

    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        return core.run_check(prop, PROPS[prop], tier, seed)
    except core.CheckError as ex:
        print(f"{prop}: no answer: {ex}", file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.exit(main())
