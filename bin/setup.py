#!/usr/bin/env python3
"""Checks that the tools the checks need are present; each check builds everything from /repo itself."""
import shutil, sys
missing = [t for t in ("clang++", "opt", "llvm-link", "llvm-split", "llc", "g++", "z3") if not (shutil.which(t) or shutil.which(t + "-18"))]
if missing:
    print("missing tools: " + " ".join(missing))
    sys.exit(1)
