#!/usr/bin/env python3
"""check.py <property> [--thorough]: decides one property for the current tree of /repo."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import vlib
sys.exit(vlib.main(sys.argv))
