#!/usr/bin/env python3
"""Warms the Go build cache and makes sure TLC starts."""
import os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
w = lib.scratch()
try:
    for g in lib.GROUPS:
        lib.build_harness(w, group=g)
    lib.tla_jar()
    print("setup ok")
finally:
    shutil.rmtree(w, ignore_errors=True)
