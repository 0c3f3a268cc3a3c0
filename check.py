#!/usr/bin/env python3
"""Run one property check:  check.py C01 [quick|thorough] [-v] [--only SCENARIO] [--jobs N]"""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(30000)


def main():
    a = sys.argv[1:]
    pid = a[0]
    tier = "thorough" if "thorough" in a else "quick"
    only = a[a.index("--only") + 1] if "--only" in a else None
    jobs = int(a[a.index("--jobs") + 1]) if "--jobs" in a else None
    os.environ["VERIF_TIER"] = tier
    from sa import report
    m = importlib.import_module("checks." + pid.lower())
    sys.exit(report.run(pid, tier, m.build, m.EXPLANATION, m.ASSUMPTIONS, jobs=jobs, verbose="-v" in a, only=only))


main()
