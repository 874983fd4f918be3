#!/usr/bin/env python3
"""usage: check.py <property id> [--tier quick|thorough] [--only UNIT] [--keep]"""
import importlib, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "lib"), os.path.join(V, "checks")]
sys.dont_write_bytecode = True
m = importlib.import_module(sys.argv[1])
sys.exit(m.run())
