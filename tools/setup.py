#!/usr/bin/env python3
"""Builds the driver once and parses every specification."""
import glob, os, subprocess, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vf.core import Ctx, JAR
ctx = Ctx("setup", "quick", 1)
try:
    ctx.build()
    bad = 0
    for f in sorted(glob.glob(os.path.join(V, "tla", "*.tla"))):
        r = subprocess.run(["java", "-cp", JAR, "-DTLA-Library=" + os.path.join(V, "tla"), "tla2sany.SANY", f],
                           capture_output=True, text=True, cwd=ctx.tmp)
        if r.returncode != 0 or "Errors" in r.stdout:
            print(r.stdout[-1500:]); bad = 1
    sys.exit(bad)
finally:
    ctx.close()
