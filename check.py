#!/usr/bin/env python3
"""check.py <property id> [--thorough]: decide one property from the current source of /repo."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from lib.check import main
sys.exit(main(sys.argv))
