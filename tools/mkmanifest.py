#!/usr/bin/env python3
"""write MANIFEST.json from the list of implemented checks"""
import json, os, sys, importlib
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
import props
ids = [json.loads(l)["id"] for l in open(here + "/properties.jsonl")]
T = "symbolic execution of the LLVM IR compiled from /repo's sources (irsym), assertions decided by the z3 SMT solver; counterexamples replayed against natively compiled code"
checks, na = [], []
for i in ids:
    if hasattr(props, i):
        checks.append(dict(property=i, quick_cmd=f"python3-vt check.py {i} quick", thorough_cmd=f"python3-vt check.py {i} thorough",
                           technique=getattr(props, "TECH", {}).get(i, T), level="model_checking", level_note=props.NOTE.get(i, "bounded; see evidence bounds and DESIGN.md")))
    else:
        na.append(dict(property=i, reason=props.NA.get(i, "check not built yet")))
json.dump(dict(version=1, setup_cmd="python3-vt tools/selftest.py", hooks=dict(guard="LIBSPOT_VERIF", enable="not used: no hook was added to the sources"), checks=checks, not_applicable=na),
          open(here + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not claimed")
