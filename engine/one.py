#!/usr/bin/env python3-vt
"""one.py HARNESS real|fp PARAMS... : explores a single run (development; env W = workers, B = budget)."""
import os, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
from props import Run
h, mode, params = sys.argv[1], sys.argv[2], [int(x) for x in sys.argv[3:]]
scratch = tempfile.mkdtemp(prefix="symscratch")
os.environ["SYM_SCRATCH"] = scratch
check.PROPS["DEV"] = dict(runs=lambda t: [Run(h, mode, params, "", workers=int(os.environ.get("W", "8")))], budget=int(os.environ.get("B", "600")))
c = check.Checker("DEV", "quick", 1)
c.evidence = lambda *a: None
try:
    print("rc", c.main())
finally:
    shutil.rmtree(scratch, ignore_errors=True)
