#!/usr/bin/env python3
"""Run once in a fresh sandbox: makes the build folders and checks that the toolchain is there.
The checks themselves build what they need from /repo's working tree."""
import os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in ("build", "evidence", "replays"):
    os.makedirs(os.path.join(V, d), exist_ok=True)
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from vlib import tlc
for t in ("java", "g++"):
    if not shutil.which(t):
        sys.exit("missing tool: " + t)
for j in tlc.CP.split(":"):
    if not os.path.exists(j):
        sys.exit("missing " + j)
print("setup done")
