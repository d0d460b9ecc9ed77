#!/usr/bin/env python3
"""Builds the harness once, to see that it builds."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import runner
os.makedirs(runner.VERIF + "/evidence", exist_ok=True)
print("built", runner.build())
