#!/usr/bin/env python3
"""check.py <property id> [-v]: analyse /repo's current source and decide the property"""
import sys, os
sys.setrecursionlimit(20000)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa import registry
sys.exit(registry.main(sys.argv[1:]))
