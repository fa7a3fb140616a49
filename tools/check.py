#!/usr/bin/env python3
"""check.py <property>: decides one property on the current tree of the repository."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib


def main():
    pid = sys.argv[1]
    try:
        mod = importlib.import_module("props." + pid.lower())
        c = lib.Check(pid)
        mod.run(c)
        return c.finish()
    except lib.ToolError as e:
        print("check error:", e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


sys.exit(main())
