#!/usr/bin/env python3
"""setup_cmd: nothing is prebuilt (every check builds from /repo's current tree); verify the toolchain is there."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in ("build", "replays", "evidence"):
    os.makedirs(os.path.join(V, d), exist_ok=True)
r = subprocess.run(["clang++", "--version"], capture_output=True, text=True)
print(r.stdout.splitlines()[0] if r.returncode == 0 else "clang++ missing")
sys.exit(r.returncode)
