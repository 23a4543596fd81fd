#!/usr/bin/env python3
"""Sanity of the tool chain (nothing needs building: checks build from /repo themselves)."""
import os, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for cmd in (["java", "-version"], ["/opt/venv/bin/python", "-c", "import numpy, mpi4py, numba"]):
    subprocess.run(cmd, check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
assert os.path.exists("/opt/veriftools/tla/tla2tools.jar")
print("setup ok")
