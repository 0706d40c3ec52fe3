#!/usr/bin/env python3
"""Nothing is prebuilt: each check compiles its monitors from /repo's working tree. This only tests that the tools are there."""
import os, subprocess, sys
V = os.path.dirname(os.path.abspath(__file__))
os.makedirs(V + "/evidence", exist_ok=True)
for c in (["g++", "--version"], ["mpirun", "--allow-run-as-root", "--version"]): subprocess.check_call(c, stdout=subprocess.DEVNULL)
for f in ("/opt/dune/prefix/lib/libdunecommon.a", V + "/checks.py", V + "/properties.jsonl"):
    if not os.path.exists(f): sys.exit("missing " + f)
print("ok")
