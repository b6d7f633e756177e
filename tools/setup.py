#!/usr/bin/env python3
"""Builds the libraries and drivers once, so that the checks only bring them up to date."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
LIBS = ["VirtualRobot", "Saba"]
d, route = build.build_libs(LIBS + ["SimDynamics", "GraspStudio"])
print("libraries:", d, route)
for n in ("rob", "scn", "sab", "env", "wsp", "eef", "ik", "conc"):
    print(build.build_driver(n, LIBS, d))
print(build.build_driver("dyn", ["SimDynamics", "VirtualRobot"], d))
print(build.build_driver("gsp", ["GraspStudio", "VirtualRobot"], d))
