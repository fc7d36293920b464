#!/usr/bin/env python3-vt
"""check.py <property-id> [quick|thorough]"""
import importlib
import os
import sys
sys.setrecursionlimit(20000)
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
sys.dont_write_bytecode = True
from rvc import run
pid = sys.argv[1]
mod = importlib.import_module("checks." + pid)
run.main(mod.check)
