#!/opt/veriftools/pyvenv/bin/python
"""check.py PROPERTY [--thorough]: decide one property by symbolic execution."""
import os, sys
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
    os.execv(sys.executable, [sys.executable] + sys.argv)
import warnings; warnings.simplefilter('ignore')
import argparse, importlib, json, random, subprocess, time, math, hashlib
import multiprocessing as mp
from concurrent.futures import ProcessPoolExecutor, ThreadPoolExecutor, wait, FIRST_COMPLETED
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from symx import explore as ex
from symx.loader import SRC

REAL_PY = "/opt/venv/bin/python"

_SC = {}
NJ = 8
def task(name, prefixes, slice_s, seed):
    try:
        return ex.explore(_SC[name], prefixes, slice_s, seed)
    except BaseException as e:
        import traceback
        return dict(scn=name, fatal="%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:]))

def replay(prop, jobs, limit=600):
    env = dict(os.environ, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1")
    n = max(1, min(NJ, len(jobs) // 4))
    ps = [subprocess.Popen([REAL_PY, os.path.join(HERE, "replay.py"), "--batch"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env) for _ in range(n)]
    with ThreadPoolExecutor(n) as ex_:
        rs = list(ex_.map(lambda k: ps[k].communicate(json.dumps(dict(prop=prop, jobs=jobs[k::n])), timeout=limit), range(n)))
    out = [None] * len(jobs)
    for k, (o, e) in enumerate(rs):
        if ps[k].returncode: raise RuntimeError("replay failed: " + e[-1500:])
        out[k::n] = json.loads(o)
    return out

def stands(prop, job, limit=600):
    """A failure met while validating a path that the solver found to hold: does it stand when the
    real inputs are moved a little, or is it rounding at a decision or at a singular point?"""
    if not any(isinstance(v, float) for v in job["values"].values()): return True
    for scale in (2e-2, 1e-3, 1e-6):
        rs = [r for r in replay(prop, [dict(job, jitter=(k, scale)) for k in range(6)], limit) if r["fails"] or r["status"] != "stopped"]
        if rs: return 2 * sum(bool(r["fails"]) for r in rs) > len(rs)
    return False

def close(a, b, scale=1.0):
    if a is None or b is None: return True
    if isinstance(a, str) or isinstance(b, str): return a == b
    if a != a or b != b: return a != a and b != b
    if math.isinf(a) or math.isinf(b): return a == b
    return abs(a - b) <= 1e-5 * max(abs(a), abs(b)) + 1e-7 * max(1.0, scale)
def same_obs(o1, o2):
    o1, o2 = [[n, list(v)] for n, v in o1], [[n, list(v)] for n, v in o2]
    if len(o1) != len(o2): return "number of observations %d / %d" % (len(o1), len(o2))
    for (n, v), (m, w) in zip(o1, o2):
        if n != m or len(v) != len(w): return "%s/%s (%d/%d values)" % (n, m, len(v), len(w))
        sc = max([abs(x) for x in list(v) + list(w) if isinstance(x, (int, float)) and math.isfinite(x)], default=1.0)
        for i, (a, b) in enumerate(zip(v, w)):
            if not close(a, b, sc): return "%s[%d]: encoding %r, real code %r" % (n, i, a, b)
    return None

def known(prop):
    "known findings of this property: list of (scenario, fragment of the message, text)"
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property=%s " % prop):
                f = dict(x.split("=", 1) for x in l.split(" :: ")[0].split()[1:] if "=" in x)
                out.append((f.get("scenario"), l.split(" :: ")[1], l.split(" :: ")[2]))
    return out

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--thorough", action="store_true"); ap.add_argument("--only"); ap.add_argument("-v", action="store_true")
    ap.add_argument("-j", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("--budget", type=float); ap.add_argument("--strict", action="store_true", help="exit 2 unless every scenario is decided completely")
    a = ap.parse_args()
    prop = a.prop
    tier = "thorough" if a.thorough else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    budget = a.budget or (780 if tier == "quick" else 3 * 3600)
    mod = importlib.import_module("harness." + prop.lower())
    scns = [s for s in mod.SCENARIOS if (tier == "thorough" or s.tier == "quick") and (not a.only or a.only in s.name)]
    _SC.update({s.name: s for s in scns})
    agg = {s.name: dict(paths=0, pruned=0, nf=0, cross=0, z3=0, wit=0, checks=0, maxdec=0, covers=set(), wall=0.0, models=[], open=1, done=False) for s in scns}
    funcs, samples, cands, errors, unknown = set(), [], [], [], []
    stats = {}
    viol, unrep = [], []
    kn = known(prop)
    known_hit = []
    tried = 0
    deadline = t0 + budget
    pool = ProcessPoolExecutor(a.j, mp_context=mp.get_context("fork"))
    fut = {}
    queue = [(s.name, [[]]) for s in scns]
    abort = set()
    fatal = out_of_time = None
    def submit():
        while queue and len(fut) < a.j:
            # prefer scenarios in order
            n, pf = queue.pop(0)
            if n in abort: continue
            sl = 3.0 if len(queue) + len(fut) >= a.j else 0.7
            fut[pool.submit(task, n, pf, sl, seed)] = n
    submit()
    nmod = 40 if tier == "quick" else 150
    def handle_cands(name, cs):
        nonlocal tried
        jobs, own = [], []
        for msg, vals in cs:
            for v in vals: jobs.append(dict(scenario=name, values=v)); own.append(msg)
        try: res = replay(prop, jobs, max(60, deadline + 60 - time.time())) if jobs else []
        except subprocess.TimeoutExpired:
            unrep.append((name, cs[0][0] + " (replay not finished)", cs[0][1], [])); return
        tried += len(jobs)
        seen = {}
        for msg, j, r in zip(own, jobs, res):
            seen.setdefault(msg, [])
            if r["fails"]:
                seen[msg].append((j, r))
        for msg, vals in cs:
            hits = seen.get(msg) or []
            if hits:
                j, r = hits[0]
                for sc, frag, text in kn:
                    if sc == name and any(frag in f for f in r["fails"]) and all(frag in f for f in r["fails"]):
                        if text not in known_hit: known_hit.append(text)
                        break
                else: viol.append((name, msg, j, r))
            else: unrep.append((name, msg, vals, [r["status"] for r in res]))
    try:
        while fut or queue:
            if time.time() > deadline: out_of_time = "time budget of %d s used up with %d open subtrees" % (budget, len(queue) + len(fut)); break
            done, _ = wait(list(fut), timeout=5, return_when=FIRST_COMPLETED)
            for f in done:
                n = fut.pop(f)
                r = f.result()
                if "fatal" in r: fatal = r["fatal"]; break
                g = agg[n]
                for k in ("paths", "pruned", "nf", "cross", "z3", "wit", "checks"): g[k] += r[k]
                g["maxdec"] = max(g["maxdec"], r["maxdec"]); g["covers"] |= r["covers"]; g["wall"] += r["wall"]
                if len(g["models"]) < nmod: g["models"] += r["models"]
                funcs |= set(r["funcs"])
                if len(samples) < 6: samples += r["samples"][:1]
                errors += [(n, e) for e in r["errors"]]
                unknown += [(n, e) for e in r["unknown"]]
                for k, v in r["st"].items(): stats[k] = stats.get(k, 0) + v
                if r["cands"]:
                    handle_cands(n, r["cands"])
                if r["truncated"]: abort.add(n); g["cut"] = True; continue
                if g["paths"] > _SC[n].max_paths: errors.append((n, "more than %d paths" % _SC[n].max_paths)); abort.add(n); continue
                left = r["left"]
                if left:
                    k = max(1, min(len(left), a.j))
                    for i in range(k):
                        if left[i::k]: queue.insert(0, (n, left[i::k]))
            if fatal: break
            if viol: break
            submit()
    except Exception as e:
        fatal = "%s: %s" % (type(e).__name__, e)
    for n in list(fut.values()) + [q[0] for q in queue]: agg[n]["openleft"] = True
    for f in fut: f.cancel()
    if viol or fatal or out_of_time:
        for p in list(getattr(pool, "_processes", {}).values()):
            try: p.kill()
            except Exception: pass
    pool.shutdown(wait=False, cancel_futures=True)

    # validation of explored paths on the real code
    validated, mism, fragile = 0, [], []
    if not viol and not fatal:
        jobs, own = [], []
        for n, g in agg.items():
            for v, o in g["models"][:nmod]: jobs.append(dict(scenario=n, values=v)); own.append((n, o))
        try:
            res = replay(prop, jobs, max(60, deadline + 60 - time.time())) if jobs else []
        except subprocess.TimeoutExpired: res = []; out_of_time = "replay of explored paths not finished"
        except Exception as e: res = []; fatal = str(e)
        for (n, o), j, r in zip(own, jobs, res):
            if r["fails"]:
                for sc, frag, text in kn:
                    if sc == n and all(frag in f for f in r["fails"]):
                        if text not in known_hit: known_hit.append(text)
                        break
                else:
                    if stands(prop, j): viol.append((n, "found while validating explored paths on the real code", j, r))
                    else: fragile.append((n, "; ".join(r["fails"])[:300], j))
                continue
            if r["status"] == "slow": continue
            d = None if r["status"] == "stopped" else same_obs(o, r["obs"])
            if d: mism.append((n, d, j))
            else: validated += 1
    for n, g in agg.items():
        miss = [c for c in _SC[n].covers if c not in g["covers"]]
        if miss and not viol and n not in abort and not fatal: errors.append((n, "not reached: " + ", ".join(miss)))
        if not g["checks"] and not viol and not fatal: errors.append((n, "vacuous: no check evaluated"))

    wall = time.time() - t0
    undecided = {}
    for what, l in (("not encodable or not finished", [(n, e) for n, e in errors]), ("solver gave no answer", unknown), ("counterexample not confirmed by the real code", [(u[0], u[1]) for u in unrep]), ("encoding and real code differ", [(m[0], m[1]) for m in mism]), ("open subtrees", [(n, out_of_time) for n, g in agg.items() if g.get("openleft")])):
        for n, e in l: undecided.setdefault(n, []).append("%s: %s" % (what, str(e)[:200]))
    checked = sum(g["checks"] for n, g in agg.items() if not any(m[0] == n for m in mism))
    # what was explored held; what was not is named in the output and the evidence
    partial = bool(undecided) or bool(out_of_time)
    some = [n for n in agg if n not in undecided] or (out_of_time and not errors and not unrep and not mism)
    if viol: rc = 1
    elif fatal or (partial and (a.strict or not some or not checked)): rc = 2
    else: rc = 0
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", wall_s=round(wall, 2), violations=len(viol),
        coverage=dict(
            states=sum(g["paths"] for g in agg.values()), transitions=stats.get("decisions", 0), traces_validated_against_impl=validated, replays_at_rounding=[dict(scenario=n, what=d) for n, d, j in fragile], samples=samples,
            exhaustive_within_bounds=rc == 0 and not partial, undecided_scenarios=undecided,
            functions_encoded=sorted(funcs), scenarios={n: dict(bounds=_SC[n].bounds, paths=g["paths"], infeasible_paths=g["pruned"], checks=g["checks"], by_normal_form=g["nf"], by_solver=g["z3"], deepest_path=g["maxdec"], reached=sorted(g["covers"]), cpu_s=round(g["wall"], 1)) for n, g in agg.items()},
            solver=dict(name="z3 " + __import__("z3").get_version_string(), queries=stats.get("queries", 0), sat=stats.get("sat", 0), unsat=stats.get("unsat", 0), unknown=stats.get("unknown", 0), seconds=round(stats.get("solver_s", 0), 2), memo_hits=stats.get("memo_hits", 0), branches_settled_by_witness=stats.get("witness_hits", 0)),
            assertions=dict(total=sum(g["checks"] for g in agg.values()), by_solver_unsat=sum(g["z3"] for g in agg.values()), by_normal_form=sum(g["nf"] for g in agg.values()), normal_forms_confirmed_by_solver=sum(g["cross"] for g in agg.values())),
            counterexample_replays=tried, result={0: "held on every path within the bounds" if not partial else "held on everything explored; undecided parts are listed", 1: "violated", 2: "inconclusive"}[rc]),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])) + ["real arithmetic stands for floating point: rounding errors are outside the claim", "stand-ins for the operating system, plotting, scipy solvers as listed in DESIGN.md"])
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as fh: json.dump(ev, fh, indent=1)
    print("%s %s: %d scenarios, %d paths (%d infeasible), %d assertions (%d by z3), %d queries, %.1f s solver, %d paths validated, %.1f s" % (
        prop, tier, len(scns), sum(g["paths"] for g in agg.values()), sum(g["pruned"] for g in agg.values()), sum(g["checks"] for g in agg.values()), sum(g["z3"] for g in agg.values()), stats.get("queries", 0), stats.get("solver_s", 0), validated, wall))
    if a.v or rc == 2:
        for n, g in agg.items(): print("   %-28s paths %5d pruned %4d checks %6d z3 %5d x %3d depth %4d cpu %6.1f covers %s" % (n, g["paths"], g["pruned"], g["checks"], g["z3"], g["cross"], g["maxdec"], g["wall"], sorted(g["covers"])))
    for t in known_hit: print("KNOWN-FINDING: property=%s %s" % (prop, t))
    for n, d, j in fragile[:3]: print("   a replay fails at a rounding limit only (not with inputs nearby): %s: %s" % (n, d))
    if viol:
        os.makedirs(os.path.join(HERE, "out"), exist_ok=True)
        for i, (n, msg, j, r) in enumerate(viol[:3]):
            path = os.path.join(HERE, "out", "%s_%d.json" % (prop, i))
            with open(path, "w") as fh: json.dump(dict(property=prop, scenario=n, message=msg, values=j["values"], fails=r["fails"]), fh, indent=1)
            print("scenario %s: %s" % (n, msg.split(" | ")[0]))
            for f in r["fails"][:4]: print("   real code:", f)
            print("VIOLATION property=%s replay=%s" % (prop, path))
    elif partial or rc == 2:
        print("INCONCLUSIVE" if rc == 2 else "PARTIAL: held on everything explored; not decided: " + ", ".join(undecided))
        if out_of_time: print("  ", out_of_time)
        if fatal: print("  ", fatal)
        for e in (errors[:5] + unknown[:5]): print("  ", e)
        for n, m, v, st in unrep[:4]:
            print("   not reproduced on the real code:", n, m, st)
            print("      values:", json.dumps(v[:1])[:1500])
        for n, d, j in mism[:4]:
            print("   encoding and real code differ:", n, d)
            print("      values:", json.dumps(j["values"])[:1500])
    sys.stdout.flush()
    os._exit(rc)
if __name__ == "__main__": main()
