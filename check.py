#!/usr/bin/env python3-vt
"""check.py <property id> [quick|thorough] : decide one property on /repo's current tree"""
import sys, os, importlib, json, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
from xvc import core, runner

if __name__ == '__main__':
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    sys.exit(runner.main(pid, tier))
