#!/usr/bin/env python3
"""Build the driver and the dependencies once (every check also does it when needed)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "engine"))
import mir
try:
    mir.plan()
    mir.plan(features=["derived"], tag="derived")
except mir.BuildError as e:
    print(e)
