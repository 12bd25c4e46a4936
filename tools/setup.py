#!/usr/bin/env python3
"""Checks that the tools are there and fills the build cache."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import engine  # noqa: E402

run = engine.Run("setup", "quick", 1)
try:
    for race in (False, True):
        try:
            run.build(race)
        except engine.ToolError as e:
            print(e)
            sys.exit(1)
    if not os.path.exists("/opt/veriftools/tla/tla2tools.jar"):
        print("no TLC")
        sys.exit(1)
finally:
    run.close()
print("ready")
