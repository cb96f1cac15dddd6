#!/usr/bin/env python3
import argparse, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import harness
ap = argparse.ArgumentParser()
ap.add_argument("property", nargs="?"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
ap.add_argument("-n", type=int); ap.add_argument("-w", type=int); ap.add_argument("-v", action="store_true"); ap.add_argument("--replay")
a = ap.parse_args()
if a.replay: sys.exit(harness.replay(a.replay))
sys.exit(harness.main(a.property, a.tier, a.n, a.w, a.v))
