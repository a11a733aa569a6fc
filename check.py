#!/usr/bin/env python3
"""Usage: check.py PROPERTY [quick|thorough]"""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "sa"))
sys.setrecursionlimit(20000)
import traceback

import registry
import report


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    ctx = report.Ctx(pid, tier)
    fn, level, _ = registry.CHECKS[pid]
    try:
        rule = fn(ctx)
    except Exception:
        traceback.print_exc()
        print("%s: no answer (the tree does not build, or the analysis failed)" % pid)
        return 2
    return report.finish(ctx, level, rule)


if __name__ == "__main__":
    sys.exit(main())
