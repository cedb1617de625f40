#!/usr/bin/env python3
"""Builds every harness program and the specification's Java module from the committed files."""
import sys
from pathlib import Path
sys.path.insert(0, str(Path(__file__).resolve().parent))
import build, mbv
mbv.java_dir()
hs = sorted(p.stem for p in (build.VERIF / "harness").glob("*.cpp"))
print(build.build(hs))
build.build(["core"], variant="chunk")
