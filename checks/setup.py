#!/usr/bin/env python3
"""builds the MIR dumper used by all checks (they build it themselves when it is missing)"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
import mir
print(mir.driver())
