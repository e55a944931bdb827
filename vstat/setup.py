#!/usr/bin/env python3
"""compiles the IR dumper (every check does it itself when it is missing)"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ir
print(ir.irdump_binary())
