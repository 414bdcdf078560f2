#!/usr/bin/env python3
"""Builds the analysis driver and the dependencies it needs; every check does the same when that is missing."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import build  # noqa: E402
env = build.nightly_env()
print(build.driver(env))
