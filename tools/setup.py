#!/usr/bin/env python3
"""Builds the library in every flavour the checks use (a cache: each check rebuilds what changed)."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
from props import PROPS
for fl in sorted({h.get('flavor', 'asan') for p in PROPS.values() for h in p['harnesses']}):
    b = vbuild.Builder(fl)
    print(b.lib())
    b.close()
