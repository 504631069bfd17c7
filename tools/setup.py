#!/usr/bin/env python3
"""Builds the harness against /repo and parses the specifications."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
Ctx("setup", "quick", 1).build()
for m in sorted(f[:-4] for f in os.listdir(SPEC) if f.endswith(".tla")):
    p = subprocess.run(["java", "-cp", JAR, "tla2sany.SANY", m + ".tla"], cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=java_env())
    if p.returncode != 0 or "*** Errors" in p.stdout or "Fatal" in p.stdout:
        print(p.stdout); sys.exit(1)
print("set up")
