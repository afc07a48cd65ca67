#!/usr/bin/env python3
"""Compile the specification's Java overrides and build dinero once (checks do both again when needed)."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import checks, core
checks.build_dir()
core.classes()
core.build()
print("ready")
