#!/usr/bin/env python3
"""Warms the build caches (the harness is built from /repo's working tree by every check anyway)."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.dont_write_bytecode = True
import vlib

c = vlib.Ctx("setup", "quick", 1)
try:
    c.build()
    c.build(race=True)
    for name in sorted(os.listdir(vlib.VERIF + "/spec")):
        pass
    print("harness builds, doors:", c.shims)
finally:
    c.close()
