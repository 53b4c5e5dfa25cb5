#!/usr/bin/env python3
"""run.py <property> [quick|thorough]: decides one property on /repo's current tree."""
import importlib, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
sys.dont_write_bytecode = True
from harness import Check

WHERE = {"p_iter": ["P09", "P10", "P11"], "p_core": ["P01", "P02", "P03", "P04", "P05", "P07", "P08"]}


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else None
    mod = next((m for m, l in WHERE.items() if pid in l), pid.lower())
    ck = Check(pid, tier)
    getattr(importlib.import_module(mod), pid.lower())(ck)
    rc = ck.finish()
    sys.stdout.flush()
    return rc


sys.exit(main())
