#!/usr/bin/env python3
"""python3 run.py <property>            run the check (VERIF_TIER, VERIF_SEED)
   python3 run.py --replay <file>       run a replay file again on the current tree
   python3 run.py --setup               self-test of the model against the official vectors"""
import sys
from vt import checks, replay

if __name__ == "__main__":
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        sys.exit(replay.replay(sys.argv[2]))
    if len(sys.argv) >= 2 and sys.argv[1] == "--setup":
        sys.exit(replay.setup())
    checks.main(sys.argv[1])
