#!/usr/bin/env python3
"""Nothing is prebuilt (every check compiles from /repo's current tree); this
makes sure the tools and libraries the checks need are there."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in ("build", "evidence", "replays"):
    os.makedirs(os.path.join(V, d), exist_ok=True)
for cmd in (["g++-11", "--version"], ["python3", "--version"]):
    subprocess.run(cmd, check=True, stdout=subprocess.DEVNULL)
for p in ("/usr/include/eigen3/Eigen/Dense", "/usr/include/g2o/core/sparse_optimizer.h"):
    if not os.path.exists(p):
        sys.exit("missing " + p)
print("ok")
