#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]: run the check of one property."""
import os, sys, importlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks"))
import vlib

if __name__ == "__main__":
    pid = sys.argv[1].upper()
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    m = importlib.import_module(pid.lower())
    try:
        rc = vlib.main(pid, tier, seed, m.run, m.LEVEL)
    except BaseException as e:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
