#!/usr/bin/env python3
"""Checks that the tools are there and warms the build cache."""
import os, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
import vlib
c = vlib.Check("setup", "quick", 1)
try:
    c.build()
    subprocess.run(["java", "-version"], check=True, stderr=subprocess.DEVNULL)
finally:
    c.cleanup()
