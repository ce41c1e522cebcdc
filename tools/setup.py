#!/usr/bin/env python3
"""Builds the harness once and parses the specifications."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
print(vlib.finish_build(vlib.start_build()))
for m in ["LexConform", "TreeConform", "Gen", "Outcome", "Layout", "Where", "Onward", "Part", "Buffer", "Joint"]:
    r = subprocess.run(["java", "-cp", vlib.JARS, "tla2sany.SANY", m + ".tla"], cwd=vlib.SPECS, capture_output=True, text=True)
    if r.returncode:
        sys.exit(r.stdout)
