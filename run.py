#!/usr/bin/env python3
"""run.py <property> [quick|thorough]: decide one property against /repo."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
from engine import run_check
import checks

if __name__ == "__main__":
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if pid not in checks.CHECKS:
        print("unknown property", pid)
        sys.exit(2)
    fn, assumptions = checks.CHECKS[pid]
    sys.exit(run_check(pid, tier, fn, assumptions))
