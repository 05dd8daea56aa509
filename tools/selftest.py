#!/usr/bin/env python3-vt
"""setup: verify the tools are there (nothing is installed, nothing is built)"""
import shutil, sys
import z3
for t in ("clang", "llvm-link", "opt"):
    if not (shutil.which(t) or shutil.which(t + "-18")):
        print("missing", t)
        sys.exit(1)
print("z3", z3.get_version_string(), "ok")
