#!/usr/bin/env python3
"""Builds every variant that the checks use, so that they start from warm caches."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import run
bad = 0
for name in list(run.BUILDS):
    try:
        run.build(name)
    except run.NoVerdict as e:
        bad = 1
        print(e)
try:
    run.build_miri()
except run.NoVerdict as e:
    bad = 1
    print(e)
sys.exit(bad)
