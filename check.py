#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough]: static analysis of /repo/mpnum for one property."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('OMP_NUM_THREADS', '1')
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
from mpsa.runner import main
sys.exit(main())
