#!/usr/bin/env python3
"""check.py ID: decides property ID on /repo's current tree. Tier from VERIF_TIER (quick or thorough)."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
if __name__ == "__main__":
    os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
    sys.dont_write_bytecode = True
    from vf import main
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    sys.exit(main.main(sys.argv[1], tier))
