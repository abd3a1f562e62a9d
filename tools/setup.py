"""Nothing has to be built: checks that the interpreters and libraries are there."""
import os, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import z3, numpy
assert str(z3.simplify(z3.IntVal(1) + 1)) == "2"
for d in ("evidence", "out"): os.makedirs(os.path.join(H, d), exist_ok=True)
subprocess.run(["/opt/venv/bin/python", "-c", "import numpy, scipy, matplotlib, imageio"], check=True)
print("ready: z3 %s, numpy %s" % (z3.get_version_string(), numpy.__version__))
