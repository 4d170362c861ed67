#!/usr/bin/env python3
"""check.py PROPERTY [PROPERTY...]: decides properties of /repo's current source by static analysis"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from core import big_stack
from report import run_check
import registry

if __name__ == '__main__':
    rc = 0
    for prop in sys.argv[1:]:
        fn, level, expl, assume = registry.get(prop)
        r = big_stack(lambda: run_check(prop, fn, level, expl, assume))
        rc = max(rc, r)
    sys.exit(rc)
