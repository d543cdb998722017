#!/usr/bin/env python3
"""Builds govc into /verif/.build."""
import os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(V, ".build"), exist_ok=True)
e = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local")
subprocess.run(["go", "build", "-o", os.path.join(V, ".build", "govc"), "."], cwd=os.path.join(V, "govc"), env=e, check=True)
