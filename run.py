#!/usr/bin/env python3
"""run.py PROPERTY [quick|thorough] [--replay FILE]"""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import core
sys.exit(core.main(sys.argv))
