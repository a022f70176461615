#!/usr/bin/env python3
"""Checks that what the checks need is there; everything is built from source by each check."""
import os, shutil, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
missing = [t for t in ("clang++",) if not shutil.which(t)]
if missing:
    sys.exit("missing: %s" % missing)
os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
os.makedirs(os.path.join(V, "build"), exist_ok=True)
