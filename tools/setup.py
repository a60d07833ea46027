#!/usr/bin/env python3
"""Compile the drivers for the current tree."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import harness  # noqa: E402

try:
    print(harness.build('api', 'cls', 'sub', 'dep', 'apiopt', 'thr', 'py'))
except harness.HarnessError as e:
    # A check whose driver does not compile will say so
    print('WARNING: %s' % e)
