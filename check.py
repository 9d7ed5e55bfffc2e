#!/usr/bin/env python
"""check.py C01 | --replay FILE

Decides one property by simulation, or replays a recorded violation. Reads VERIF_SEED
and VERIF_TIER."""

import os
import sys


sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main(argv):
    from sim import harness

    if argv[0] == "--worker":
        harness.worker(argv[1])
        return 0
    try:
        from sim import env  # noqa: F401

        if argv[0] == "--replay":
            return harness.replay(argv[1])
        seed = int(os.environ.get("VERIF_SEED", "0"))
        tier = os.environ.get("VERIF_TIER", "quick")
        return harness.check(argv[0], seed, tier)
    except Exception:
        import traceback

        print("ERROR of the check:\n" + traceback.format_exc(), flush=True)
        return 2


if __name__ == "__main__":
    code = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(code)
