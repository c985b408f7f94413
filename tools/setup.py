#!/usr/bin/env python3
"""Pre-builds the harnesses (checks rebuild whatever changed)."""
import os, sys
sys.path[:0] = [os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness")]
import build
try:
    build.build("dnl"); build.build("alg"); build.build("due"); build.build("paths"); build.build("net"); build.build_ext()
except build.BuildError as e:
    print(e)
