#!/usr/bin/env python3
"""Checks that the tools the framework needs are there. Each check builds what it runs."""
import shutil, sys
missing = [t for t in ("clang", "clang++") if shutil.which(t) is None]
if missing:
    print("missing: " + ", ".join(missing)); sys.exit(1)
print("ok")
