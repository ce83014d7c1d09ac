#!/usr/bin/env python3
"""Entry point of all checks: check.py <property id>."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from sa import base
from sa.props import PROPS


def main():
    prop = sys.argv[1]
    if prop not in PROPS:
        print("unknown property", prop)
        return 2
    try:
        return PROPS[prop]()
    except base.BuildFailure as e:
        print("ERROR: /repo does not build, nothing was analysed:", e)
        return 2
    except Exception:
        traceback.print_exc()
        print("ERROR: the analysis itself failed")
        return 2


if __name__ == "__main__":
    sys.exit(main())
