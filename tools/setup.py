#!/usr/bin/env python3
"""Sanity check of the tools the checks need (each check builds what it needs itself)."""
import shutil, sys
missing = [t for t in ("g++", "cmake", "ninja", "ar") if not shutil.which(t)]
if missing:
    print("missing tools:", missing)
    sys.exit(1)
print("ok")
