#!/usr/bin/env python3
"""Builds all drivers once (every check rebuilds what it needs anyway)."""
import glob, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
drv = sorted(os.path.basename(p)[:-2] for p in glob.glob(os.path.join(V, "harness", "drv_*.c")))
sys.exit(subprocess.call([sys.executable, os.path.join(V, "harness", "build.py"), *drv]))
