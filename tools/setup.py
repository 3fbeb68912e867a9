#!/usr/bin/env python3
"""Build everything the checks build, so that each check starts from a warm target directory."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import core
core.build_harness()
for b in ("crofiler", "simpp"): core.build_bin(b)
if os.path.isdir(core.ROOT + "/hooked"): core.build_hooked()
os.makedirs(core.ROOT + "/evidence", exist_ok=True)
print("setup done")
