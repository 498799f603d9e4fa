#!/usr/bin/env python3
"""Checks that the tools the monitors need are present (checks build themselves)."""
import subprocess, sys
for cmd in (["cargo", "--version"], ["cargo", "+nightly", "--version"], ["cargo", "+nightly", "miri", "--version"]):
    r = subprocess.run(cmd, capture_output=True, text=True)
    print(" ".join(cmd), "->", r.stdout.strip() or r.stderr.strip())
    if r.returncode:
        sys.exit(1)
