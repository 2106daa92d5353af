#!/usr/bin/env python3
"""Checks that the tools the checks need are there and that specification and driver build."""
import os, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, ".."))
import check
c = check.Check("P01", "quick")
try:
    c.build()
    rc, out = check.run(["java", "-cp", check.JARS, "tla2sany.SANY", "Trace.tla"], 300, cwd=os.path.join(c.dir, "spec"))
    print(out[-300:])
    sys.exit(0 if rc == 0 else 1)
finally:
    import shutil
    shutil.rmtree(c.dir, ignore_errors=True)
