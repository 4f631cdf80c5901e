#!/usr/bin/env python3
"""Checks that the tools the checks use are there.  Checks build for themselves."""
import shutil, sys
missing = [t for t in ("g++", "clang++", "valgrind", "python3", "ar") if not shutil.which(t)]
print("missing: %s" % missing if missing else "tools present")
sys.exit(1 if missing else 0)
