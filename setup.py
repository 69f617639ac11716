#!/usr/bin/env python3
"""Build the driver and warm the fact cache (every check does this itself when needed)."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import build
print(build.facts())
