#!/usr/bin/env python3
"""Checks that the tools the checks need are there; everything is built by the checks themselves."""
import shutil, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf
for t in ("g++", "gcc", "java"):
    if not shutil.which(t): sys.exit("missing " + t)
if not os.path.exists(vf.TLA.split(":")[0]): sys.exit("missing TLC")
os.makedirs(os.path.join(vf.V, "build"), exist_ok=True); os.makedirs(os.path.join(vf.V, "evidence"), exist_ok=True)
print("ready")
