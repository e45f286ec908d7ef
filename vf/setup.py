#!/usr/bin/env python3
"""Offline setup: check the toolchain and warm the object cache (each check builds what it lacks by itself)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import build
os.makedirs(build.BUILD, exist_ok=True)
inc = build.incs()
build.compile_many(build.lib_sources(), ["-O0"] + build.BASE + build.SAN, inc)
print("library units compiled")
