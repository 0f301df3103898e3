#!/usr/bin/env python3
"""Builds the source preparation tool; the checks rebuild everything that depends on /repo."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import prep
print(prep.symgen_bin())
