#!/usr/bin/env python3
"""Builds the harness (every check does so again from the current tree)."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vt
try:
    vt.build()
except vt.ToolError as e:
    print(e, file=sys.stderr)
    sys.exit(2)
