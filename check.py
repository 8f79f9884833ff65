#!/usr/bin/env python3
"""check.py --property Cxx [--tier quick|thorough] [--replay FILE]"""
import argparse, importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import build, core


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("-n", type=int)
    ap.add_argument("--first", type=int, default=0)
    ap.add_argument("--cap", type=float)
    ap.add_argument("--workers", type=int)
    ap.add_argument("--min-budget", type=float, help="seconds spent minimising a failure")
    a = ap.parse_args()
    pid = a.property
    if a.replay and not pid:
        import json
        pid = json.load(open(a.replay))["property"]
    prop = importlib.import_module("props." + pid.lower()).PROP
    try:
        if a.replay:
            return core.replay(prop, a.replay)
        return core.check(prop, a.tier, a.seed, n=a.n, cap=a.cap, first=a.first, nworkers=a.workers, min_budget=a.min_budget)
    except build.BuildError as e:
        print("BUILD ERROR (no verdict): %s" % e, file=sys.stderr)
        return 3


if __name__ == "__main__":
    sys.exit(main())
