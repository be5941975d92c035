#!/opt/venv/bin/python
"""Slowest units of a check: tools/prof.py C11 [tier]"""
import importlib, os, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
import check as chk
chk.import_code()
from mc import core
m = importlib.import_module("mc.checks." + sys.argv[1].lower())
tier = sys.argv[2] if len(sys.argv) > 2 else "quick"
units, res, unf = core.explore(m, tier)
for r in sorted(res, key=lambda r: -r["wall"])[:12]:
    print(round(r["wall"], 2), str(r["unit"])[:140], r["states"], r["evaluations"], len(r["failures"]))
print(sum(r["wall"] for r in res), len(units))
