#!/usr/bin/env python3-vt
"""check.py <property> [quick|thorough]: decide one property on /repo's current tree."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
from vlib import Check

if __name__ == "__main__":
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    spec = getattr(props, pid)(tier)
    if callable(spec):
        sys.exit(spec())
    jobs = spec.pop("jobs")
    if os.environ.get("VERIF_JOB"):
        jobs = [j for j in jobs if os.environ["VERIF_JOB"] in j.name]
    sys.exit(Check(pid, tier, jobs, **spec).run())
