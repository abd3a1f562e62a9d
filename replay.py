#!/opt/venv/bin/python
"""Runs harness scenarios on the real code with concrete values.

  replay.py FILE       a VIOLATION replay file: prints what fails, exit 1 if it does
  replay.py --batch    jobs as JSON on stdin, results as JSON on stdout"""
import importlib, json, os, sys, warnings
sys.dont_write_bytecode = True
os.environ.setdefault("MPLBACKEND", "Agg")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
warnings.simplefilter("ignore")
from symx.cenv import run_job

def scns(prop):
    m = importlib.import_module("harness." + prop.lower())
    return {s.name: s for s in m.SCENARIOS}
def main():
    if sys.argv[1] == "--batch":
        job = json.load(sys.stdin)
        sc = scns(job["prop"])
        real_out = sys.stdout
        sys.stdout = sys.stderr
        res = [run_job(sc[j["scenario"]], j["values"], limit=j.get("limit", max(30, sc[j["scenario"]].path_limit // 3)), jitter=j.get("jitter")) for j in job["jobs"]]
        sys.stdout = real_out
        json.dump(res, sys.stdout)
        return 0
    with open(sys.argv[1]) as fh: j = json.load(fh)
    r = run_job(scns(j["property"])[j["scenario"]], j["values"])
    print("property", j["property"], "scenario", j["scenario"])
    print("values", json.dumps(j["values"]))
    print("status", r["status"])
    for f in r["fails"]: print("FAILS:", f)
    if r["tb"]: print(r["tb"])
    return 1 if r["fails"] else 0
if __name__ == "__main__": sys.exit(main())
