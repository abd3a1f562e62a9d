"""Writes /verif/MANIFEST.json"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
TECH = "symbolic execution of the real source (own Python/numpy engine), path conditions and assertions decided by z3, counterexamples replayed on the real code"
NOTE = ("Bounded: holds for every value of the symbolic inputs on every path of the scenarios, whose sizes are stated in the evidence file (coverage.scenarios) and DESIGN.md. "
        "Real arithmetic stands for floating point; numpy, scipy, matplotlib, os, imageio are replaced by the stand-ins listed in DESIGN.md on the symbolic side and are the real ones in replays. "
        "Equalities of exact rational normal forms are decided by the engine, a sample of them is confirmed by z3. ")
EXTRA = {
 "C07": "The equation solver is any solver: each of its answers is free.", "C08": "The equation solver is any solver: each of its answers is free.", "C11": "The equation solver is any solver: each of its answers is free.",
 "C12": "One controller decision is decided from any state, runs up to the stated number of calls.", "C13": "The equation solver is any solver: each of its answers is free.", "C14": "The equation solver is any solver: each of its answers is free.",
 "C10": "The linear solver is replaced by its contract (J dx = -f).", "C20": "Files live in a recorded in-memory file system.", "C21": "Faults are exceptions raised by the equation solver at any call.",
}
NA = {}
m = dict(version=1, setup_cmd="/opt/veriftools/pyvenv/bin/python tools/setup.py",
    checks=[dict(property=p["id"], quick_cmd="./check.py %s" % p["id"], thorough_cmd="./check.py %s --thorough" % p["id"], evidence_file="evidence/%s.json" % p["id"],
                 technique=TECH, level="model_checking", level_note=NOTE + EXTRA.get(p["id"], "")) for p in props if p["id"] not in NA],
    not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
    notes="No hooks in /repo are needed. check.py exits 0 (held), 1 (violated; VIOLATION line) or 2 (inconclusive: nothing is claimed).")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
