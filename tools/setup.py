#!/usr/bin/env python3
"""Nothing has to be prepared (each check builds what it needs); verifies that the toolchain is there."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(V, "evidence", "replays"), exist_ok=True)
sys.exit(subprocess.call(["g++", "--version"], stdout=subprocess.DEVNULL))
