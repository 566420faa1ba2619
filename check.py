#!/usr/bin/env python3
"""python3 check.py <property id>: run that property's check."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import check, registry

if __name__ == "__main__":
    pid = sys.argv[1]
    sys.stdout.flush()
    rc = check.run(registry.CHECKS[pid])
    sys.stdout.flush()
    os._exit(rc)
