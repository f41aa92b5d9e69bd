import argparse
import json
import os
import sys
import time


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("tier", nargs="?", default="quick")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("--budget", type=float)
    ap.add_argument("--only")
    ap.add_argument("--debug", action="store_true")
    ap.add_argument("--nostop", action="store_true")
    ap.add_argument("--replay")
    a = ap.parse_args()
    from . import report
    if a.replay:
        sys.exit(report.replay(a.replay))
    sys.exit(report.check(a.prop, a.tier, a.jobs, a.budget, a.only, a.debug, a.nostop))


main()
