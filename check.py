#!/usr/bin/env python3
"""Run one property's check: check.py P01 [quick|thorough]"""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf.core import ToolError, Check
def main():
    pid = sys.argv[1]
    if len(sys.argv) > 2: os.environ["VERIF_TIER"] = sys.argv[2]
    mod = importlib.import_module("checks." + pid.lower())
    c = Check(pid)
    try:
        mod.run(c)
    except ToolError as e:
        if c.violations:
            return c.finish()
        print("TOOL ERROR: %s" % e); return 2
    except Exception:
        traceback.print_exc()
        if c.violations:
            return c.finish()
        return 2
    return c.finish()
sys.exit(main())
