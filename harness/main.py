import argparse
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core

ap = argparse.ArgumentParser()
ap.add_argument("property")
ap.add_argument("--tier", default=None)
ap.add_argument("--replay")
ap.add_argument("--n", type=int)
ap.add_argument("--start", type=int, default=0)
ap.add_argument("--jobs", type=int, default=8)
a = ap.parse_args()
tier = a.tier or os.environ.get("VERIF_TIER", "quick")
seed = int(os.environ.get("VERIF_SEED", "1") or 1)
prop = importlib.import_module("props." + a.property.lower())
sys.exit(core.main(prop, tier, seed, a.replay, a.jobs, a.n, a.start))
