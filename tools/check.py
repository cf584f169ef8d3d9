#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N] [--replay FILE] ; check.py --setup"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild, runner
from config import PROPS

def arg(name, default=None):
    return sys.argv[sys.argv.index(name) + 1] if name in sys.argv else default

if sys.argv[1] == "--setup":
    seen, bad = set(), 0
    for pid, cfg in PROPS.items():
        for run in cfg["runs"]:
            k = (run["name"], run.get("variant", "asan"))
            if k in seen:
                continue
            seen.add(k)
            try:
                print(vbuild.build(run["name"], run["main"], run["comps"], run.get("variant", "asan"), extra=run.get("extra", ()),
                                   snap=run.get("snap", False), libs=run.get("libs", ())), flush=True)
            except vbuild.BuildError as e:
                print("BUILD FAILED", run["name"], str(e)[:3000]); bad = 1
    sys.exit(bad)
pid = sys.argv[1]
tier = arg("--tier", os.environ.get("VERIF_TIER", "quick"))
if tier not in ("quick", "thorough"):
    tier = "quick"
try:
    seed = int(arg("--seed", os.environ.get("VERIF_SEED", "1")))
except ValueError:
    seed = 1
if arg("--replay"):
    sys.exit(runner.replay(pid, PROPS[pid], arg("--replay")))
sys.exit(runner.execute(pid, PROPS[pid], tier, seed))
