#!/usr/bin/env python3
"""Checks that the tools the monitors need are present."""
import shutil
import sys

miss = [t for t in ("g++", "clang++") if not shutil.which(t)]
if miss:
    print("missing tools:", miss)
    sys.exit(1)
print("ok")
