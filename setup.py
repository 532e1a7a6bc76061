#!/usr/bin/env python3
"""Set-up: makes sure that the tools are there and that one harness builds (the checks build their own)."""
import os, subprocess, sys
V = os.path.dirname(os.path.abspath(__file__))
for tool in ("/usr/bin/g++", "/usr/bin/gcc", "/usr/bin/ar"):
    if not os.path.exists(tool):
        sys.exit("missing " + tool)
sys.exit(subprocess.run([sys.executable, os.path.join(V, "check.py"), "C01", "--build-only"]).returncode)
