#!/opt/venv/bin/python
"""check.py C01 [--tier quick|thorough] [--seed N] [--runs N] [--wall S]   |   check.py --replay FILE"""
import argparse
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sim import engine  # noqa

p = argparse.ArgumentParser()
p.add_argument("prop", nargs="?")
p.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
p.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
p.add_argument("--runs", type=int)
p.add_argument("--wall", type=float)
p.add_argument("--workers", type=int)
p.add_argument("--replay")
p.add_argument("--selftest", action="store_true", help="determinism: the same seeds several times")
p.add_argument("--strict", action="store_true")
a = p.parse_args()
if a.selftest:
    have = [c for c, w in engine.WORLDS.items() if os.path.exists(os.path.join(engine.HERE, "sim/worlds", w + ".py"))]
    sys.exit(engine.selftest([a.prop] if a.prop else have, a.runs or 12, a.seed, a.strict))
if a.replay:
    sys.exit(engine.replay_file(a.replay))
tier = a.tier if a.tier in ("quick", "thorough") else "quick"
sys.exit(engine.check(a.prop, tier, a.seed, a.workers, a.runs, a.wall))
