#!/usr/bin/env python3
"""compile once so that a broken toolchain shows before the checks run"""
import os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [H, os.path.join(os.path.dirname(H), "lib")]
import vlib
b = vlib.build("opt")
r = vlib.run1(b, ["ev 98252 0 0 -1 1"], vlib.rundir("std", 1))
print("features:", sorted(b.features), "ok" if r.ended else "FAILED")
sys.exit(0 if r.ended else 1)
