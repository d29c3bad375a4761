#!/usr/bin/env python3
"""setup_cmd: build everything once so that the checks start from a warm cache."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import build as B
try:
    d = B.build(("core", "filters", "python", "vsscript", "vspipe"))
except B.BuildError as x:
    print(x, file=sys.stderr); sys.exit(1)
for f in sorted(os.listdir(os.path.join(B.VERIF, "drivers"))):
    if f.endswith(".cpp"):
        n = f[:-4]
        B.build_driver(n, d, libs=("core", "vsscript") if n in ("script_driver",) else ("core",))
print("built", d)
