#!/usr/bin/env python3
"""Nothing has to be built beforehand; warms the Go build cache and checks that the tools answer."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import core
w = core.Work()
try:
    for pkg in sorted(os.listdir(core.HARN)):
        if pkg != "stack":
            w.build(pkg)
finally:
    w.close()
print("ready")
