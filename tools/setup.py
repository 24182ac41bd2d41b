#!/usr/bin/env python3
"""Checks that the tools are there and builds every simulated world once."""
import os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import build
for t in ("clang++", "g++"):
    if not shutil.which(t):
        sys.exit("missing tool: " + t)
for w in build.WORLDS:
    print(w, build.build(w))
