#!/usr/bin/env python3
"""the checks build what they need: only make sure that the toolchain works"""
import pathlib, shutil, subprocess, sys
V = pathlib.Path(__file__).resolve().parents[1]
for d in ("build", "replays", "evidence"):
    (V / d).mkdir(exist_ok=True)
if not shutil.which("g++-14"):
    sys.exit("g++-14 is missing")
print(subprocess.run(["g++-14", "--version"], capture_output=True, text=True).stdout.splitlines()[0])
