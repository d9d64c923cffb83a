#!/usr/bin/env python3
"""Compiles the harness once so that a broken toolchain shows before the checks."""
import os, subprocess, sys, tempfile
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import check
d = tempfile.mkdtemp(prefix="vmon-setup-")
rc = 0
for flags in ([], ["-race"]):
    p = subprocess.run(["go", "test", "-c", "-vet=off", "-buildvcs=false"] + flags + ["-o", d + "/t", "./mon"], cwd=check.HARNESS, env=check.base_env("/root"))
    rc = rc or p.returncode
subprocess.run(["rm", "-rf", d])
sys.exit(rc)
