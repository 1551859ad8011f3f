#!/usr/bin/env python3
"""Builds everything the checks use."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
lib.prepare(["debug", "release"])
for m in ("PrimTest", "Anchors"):
    rc, o = lib.tlc(m, m + ".cfg")
    if rc:
        sys.exit(lib.brief_tlc(o))
print("ready")
