#!/usr/bin/env python3
"""Checks that the tools the checks need are present and that the generated shim headers can be produced."""
import os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vt
for t in ("g++", "gcc", "python3"):
    if not shutil.which(t):
        sys.exit("missing tool: " + t)
vt.gen()
print("setup ok")
