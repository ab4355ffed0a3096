#!/usr/bin/env python3
"""usage: run.py PROPERTY [quick|thorough]"""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import vlib, checks


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else None
    c = vlib.Check(prop, tier)
    try:
        checks.CHECKS[prop](c)
    except vlib.Broken as e:
        if c.violations:
            return c.finish("model_checking")
        print("BROKEN CHECK property=%s: %s" % (prop, e))
        return 2
    return c.finish("model_checking")


sys.exit(main())
