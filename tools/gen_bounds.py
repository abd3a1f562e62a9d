"""Writes BOUNDS.md: the scenarios of every check and their bounds."""
import importlib, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
L = ["# Scenarios and bounds", "", "Generated by tools/gen_bounds.py. `thorough` scenarios run in addition with --thorough.", ""]
i = 1
while os.path.exists(os.path.join(HERE, "harness", "c%02d.py" % i)):
    m = importlib.import_module("harness.c%02d" % i)
    L += ["## C%02d" % i, ""] + ["* **%s** (%s): %s" % (s.name, s.tier, s.bounds) for s in m.SCENARIOS] + [""]
    i += 1
open(os.path.join(HERE, "BOUNDS.md"), "w").write("\n".join(L))
