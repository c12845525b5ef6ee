#!/usr/bin/env python3
"""check.py <property id> [--replay FILE] [--only SUBSTR]   (VERIF_SEED, VERIF_TIER from the environment)"""
import argparse, importlib, json, os, sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vp import build, core


def load():
    d = os.path.join(core.VERIF, "vp")
    for f in sorted(os.listdir(d)):
        if f.startswith("scn_") and f.endswith(".py"):
            importlib.import_module("vp." + f[:-3])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--budget", type=float)
    ap.add_argument("-j", type=int)
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    load()
    rp = json.load(open(a.replay)) if a.replay else None
    try:
        sys.exit(core.run_check(a.prop, tier, seed, a.only, rp, a.budget, a.j))
    except build.BuildError as e:
        print("cannot build the tree under test:\n%s" % e)
        sys.exit(4)


if __name__ == "__main__":
    main()
