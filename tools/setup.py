#!/usr/bin/env python3
"""setup_cmd: syntax-check the specifications and pre-build the drivers (the
checks rebuild whatever is missing or out of date themselves)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
try:
    vlib.build(["all"])
except vlib.CheckError as e:
    print(e)
    sys.exit(1)
