#!/usr/bin/env python3
"""Checks that the toolchain needed by run.py is there (every check builds itself from /repo when it runs)."""
import subprocess, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(R + "/build", exist_ok=True)
subprocess.check_call(["g++", "--version"])
print("ok")
