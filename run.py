#!/usr/bin/env python3
"""run.py <PROPERTY>: decides one property on the current /repo tree. run.py --setup builds the exporter."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vlib import build, core
if sys.argv[1] == "--setup":
    build.build_irx()
    sys.exit(0)
sys.exit(core.run(sys.argv[1]))
