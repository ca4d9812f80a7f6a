#!/usr/bin/env python3
"""Builds every driver once so that later checks only rebuild what changed."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
with open(os.path.join(build.VERIF, "tools", "drivers.json")) as f:
    todo = json.load(f)
for d, cfg in todo:
    print(build.build(d, cfg), flush=True)
