"""Exploration of one scenario (worker side)."""
import os, signal, sys, time, traceback
from . import core
from .core import Ctx, set_ctx, EngineStop, PathAbort, Unsupported, BoundExceeded
from .senv import SEnv
from .world import Stop
from .loader import SRC

class Scn:
    """fn(env, **params) explored symbolically.
    covers: reachability witnesses that some path has to hit."""
    def __init__(self, name, fn, bounds="", covers=(), tier="quick", path_limit=90, timeout_ms=8000, max_paths=200000, **params):
        self.name, self.fn, self.bounds, self.covers, self.tier = name, fn, bounds, tuple(covers), tier
        self.params, self.path_limit, self.timeout_ms, self.max_paths = params, path_limit, timeout_ms, max_paths

_ctx = {}
_funcs = set()
def _monitor():
    m = sys.monitoring
    try: m.use_tool_id(3, "symx")
    except ValueError: return
    def start(code, off):
        f = code.co_filename
        if f.startswith(SRC): _funcs.add(f[len(SRC):].lstrip("/") + ":" + code.co_qualname)
        return m.DISABLE
    m.register_callback(3, m.events.PY_START, start)
    ev = m.events.PY_START
    cov = os.environ.get("SYMX_COV")
    if cov:                               # development aid: lines of the source reached
        seen = set()
        def line(code, no):
            f = code.co_filename
            if f.startswith(SRC) and (f, no) not in seen:
                seen.add((f, no))
                with open(os.path.join(cov, "%d.txt" % os.getpid()), "a") as fh: fh.write("%s:%d\n" % (f, no))
            return m.DISABLE
        m.register_callback(3, m.events.LINE, line)
        ev |= m.events.LINE
    m.set_events(3, ev)

class PathTimeout(EngineStop): pass

def run_path(scn, C, prefix):
    "-> (status, env, message)"
    C.reset_path(prefix)
    core.TOKENS.clear()
    env = SEnv(C)
    def h(*a):
        C.raise_stop(PathTimeout())
    old = signal.signal(signal.SIGALRM, h)
    signal.alarm(scn.path_limit)
    st, msg = "ok", ""
    try:
        scn.fn(env, **scn.params)
        if C.stop: raise C.stop
    except Stop: pass
    except EngineStop as e: st, msg = "stop", e
    except RecursionError as e:
        st, msg = "exc", "raises RecursionError"
    except Exception as e:
        if C.stop: st, msg = "stop", C.stop
        else:
            tb = traceback.extract_tb(e.__traceback__)
            st, msg = "exc", "raises %s: %s" % (type(e).__name__, str(e)[:200])
            env.tb = "".join(traceback.format_list(tb[-6:]))
    finally:
        signal.alarm(0); signal.signal(signal.SIGALRM, old)
    if st == "stop":
        if isinstance(msg, PathAbort): st = "pruned"
        elif isinstance(msg, PathTimeout): st, msg = "timeout", "path not finished within %d s" % scn.path_limit
        else: msg = "%s: %s" % (type(msg).__name__, msg)
    if st in ("ok", "exc") and C.pos < len(prefix): st, msg = "stop", "exploration out of step (prefix not consumed)"
    return st, env, msg

def explore(scn, prefixes, slice_s, seed, want_models=3, maxcands=2):
    """depth first exploration from the prefixes for about slice_s seconds"""
    C = _ctx.get(scn.name)
    if C is None:
        _ctx.clear()
        C = _ctx[scn.name] = Ctx(seed=seed, timeout_ms=scn.timeout_ms)
        _monitor()
    set_ctx(C)
    st0 = dict(C.st)
    out = dict(scn=scn.name, paths=0, pruned=0, nf=0, cross=0, z3=0, wit=0, checks=0, cands=[], errors=[], unknown=[], models=[], covers=set(), left=[], samples=[], maxdec=0)
    stack = list(prefixes)
    SEnv.xbudget = 6 if prefixes == [[]] else 2
    t0 = time.time()
    while stack:
        prefix = stack.pop()
        st, env, msg = run_path(scn, C, prefix)
        out["nf"] += env.n_nf; out["z3"] += env.n_z3; out["wit"] += env.n_wit; out["cross"] += env.n_cross
        out["checks"] += env.n_nf + env.n_z3 + len(env.cands)
        stack.extend(C.alts)
        out["maxdec"] = max(out["maxdec"], len(C.trace))
        if st == "pruned": out["pruned"] += 1
        elif st == "stop" : out["errors"].append(msg)
        else: out["paths"] += 1
        if st in ("exc", "timeout"):
            env._cand(msg + (" | " + getattr(env, "tb", "") if st == "exc" else ""), C.models[:2], True)
        if st != "pruned":
            out["covers"] |= env.covers
            out["unknown"] += env.unknown
            out["cands"] += env.cands
        if st == "ok" and len(out["models"]) < want_models:
            A = C.models[0] if C.models else None
            if A is None and C.pc and len(out["models"]) < 2:
                r, v = core.solve([core.sand(*C.pc)], timeout=4000)
                if r == "sat": A = core._model_from(v)
            if A is not None: out["models"].append((env.values(A), env.obs_values(A)))
        if st == "ok" and len(out["samples"]) < 1:
            out["samples"].append(dict(scenario=scn.name, path_condition=[core.sb_str(b)[:160] for b in C.pc[:6]], decisions=len(C.trace), checks=env.n_nf + env.n_z3))
        if len(out["cands"]) >= maxcands or len(out["errors"]) > 3: break
        if time.time() - t0 > slice_s: break
    out["left"] = stack
    out["funcs"] = sorted(_funcs)
    out["st"] = {k: C.st[k] - st0.get(k, 0) for k in C.st}
    out["wall"] = time.time() - t0
    out["truncated"] = bool(len(out["cands"]) >= maxcands or len(out["errors"]) > 3)
    return out
