#!/usr/bin/env python3
"""run.py <property> [--only SHARD]: run one check (VERIF_SEED, VERIF_TIER)."""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import core  # noqa: E402


def main():
    prop = sys.argv[1]
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
    mod = importlib.import_module("vf.props." + prop.lower())
    run = core.Run(prop)
    shards, models = mod.plan(core.SEED, core.TIER)
    if only:
        shards, models = [s for s in shards if s.name == only], []
    try:
        rc = run.go(shards, models)
    except core.CheckError as e:
        print("CHECK ERROR", e)
        rc = 2
    sys.exit(rc)


if __name__ == "__main__":
    main()
