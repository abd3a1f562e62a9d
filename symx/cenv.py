"""Concrete mode: the same harnesses on the real code with real numpy, scipy and
matplotlib; used to confirm counterexamples and to validate explored paths."""
import math, os, sys, signal
import numpy as np
from . import stubs
from .world import World, Stop

class CheckFailed(Exception): pass

def _flat(x):
    if isinstance(x, np.ndarray): return [_num(v) for v in x.reshape(-1)]
    if isinstance(x, (list, tuple)):
        out = []
        for v in x: out.extend(_flat(v))
        return out
    return [_num(x)]
def _num(v):
    if isinstance(v, (bool, np.bool_)): return float(v)
    try: return float(v)
    except (TypeError, ValueError): return v
def _shape(x):
    return np.shape(x)

_mpl = {}
def _fakes(fs):
    _mpl["fs"] = fs
    try:
        import matplotlib
        matplotlib.use("Agg")
        import matplotlib.pyplot as plt, matplotlib.figure as mf, warnings
        if "on" not in _mpl:
            _mpl["on"] = True
            mf.Figure.savefig = lambda self, p, *a, **k: _mpl["fs"].write(p, ("frame", stubs.snapshot(self)))
            plt.savefig = lambda p, *a, **k: plt.gcf().savefig(p)
            plt.show = lambda *a, **k: None
            plt.pause = lambda *a, **k: None
            matplotlib.rcParams["figure.max_open_warning"] = 0
        plt.close("all")
    except ImportError: pass
    return {}

class CEnv:
    sym = False
    np = np
    def __init__(self, values, record=False, jitter=None):
        self.jitter = jitter      # (seed, scale): real inputs are moved a little
        self.values, self.fails, self.nchecks, self.obs, self.covers, self.record = values, [], 0, [], set(), record
        self.world = None
    # --- the world
    def new_world(self, record=False):
        self.world = World(_fakes, strict=False, record=record)
        return self.world
    def load(self, hooks=None, record=False):
        return self.new_world(record).load(hooks)
    def mod(self, name): return self.world.mod(name)
    # --- inputs
    def _v(self, name):
        try: return self.values[name]
        except KeyError: raise Stop("the run asks for input %s, which the explored path does not have" % name)
    def real(self, name, lo=None, hi=None, pos=False):
        x = float(self._v(name))
        if self.jitter is None: return x
        import zlib
        seed, scale = self.jitter
        u = (zlib.crc32(("%s %d" % (name, seed)).encode()) % 2001 - 1000) / 1000.0
        y = x + u * scale * (1.0 + abs(x))
        if pos and y <= 0: y = x * (1 + u * min(scale, 0.5))
        if lo is not None: y = max(y, float(lo))
        if hi is not None: y = min(y, float(hi))
        return y
    def int(self, name, lo, hi): return int(self._v(name))
    def flag(self, name): return bool(self._v(name))
    def bool(self, name): return bool(self._v(name))
    def choice(self, name, options): return options[int(self._v(name))]
    def concrete(self, x): return int(x)
    def assume(self, c):
        if not c: raise Stop("assumption not met by these values")
    def truth(self, c): return bool(c)
    # --- checks
    def check(self, c, msg):
        self.nchecks += 1
        if isinstance(c, np.ndarray): c = c.all()
        if not c: self.fail(msg)
    def fail(self, msg):
        self.fails.append(str(msg))
        if len(self.fails) > 20: raise CheckFailed()
    def eq(self, a, b, msg, scale=1.0):
        self.nchecks += 1
        if _shape(a) != _shape(b):
            return self.fail("%s: shapes %s and %s" % (msg, _shape(a), _shape(b)))
        for i, (x, y) in enumerate(zip(_flat(a), _flat(b))):
            if isinstance(x, float) and isinstance(y, float):
                if x == y or (x != x and y != y): continue
                if abs(x - y) <= 1e-6 * max(abs(x), abs(y)) + 1e-9 * scale: continue
            elif x == y: continue
            return self.fail("%s: component %d is %r, expected %r" % (msg, i, x, y))
    def same(self, u, v): return abs(u - v) <= 1e-6 * max(abs(u), abs(v)) + 1e-9
    def le(self, a, b, msg, scale=1.0):
        self.nchecks += 1
        if not (a <= b + 1e-6 * max(abs(a), abs(b)) + 1e-9 * scale): self.fail("%s: %r > %r" % (msg, a, b))
    def observe(self, name, v): self.obs.append((name, _flat(v)))
    def cover(self, name): self.covers.add(name)
    # --- arithmetic used by oracles
    def sqrt(self, x): return math.sqrt(x) if x >= 0 else float("nan")
    def abs(self, x): return abs(x)
    def arr(self, x): return np.array(x, dtype=float)
    def iarr(self, x): return np.array(x, dtype=int)
    def is_sym(self, x): return False
    def and_(self, *c): return all(bool(x) for x in c)
    def or_(self, *c): return any(bool(x) for x in c)
    def not_(self, c): return not c
    def implies(self, a, b): return (not a) or bool(b)
    def lift(self, x): return x

def run_job(scn, values, limit=30, jitter=None):
    """-> dict(status, fails, obs). The limit is on processor time: an overloaded machine is no
    reason to say that the code does not come to an end."""
    env = CEnv(values, jitter=jitter)
    class TO(BaseException): pass
    class Slow(BaseException): pass
    def h(*a): raise TO()
    def hw(*a): raise Slow()
    old, oldw = signal.signal(signal.SIGPROF, h), signal.signal(signal.SIGALRM, hw)
    signal.setitimer(signal.ITIMER_PROF, limit)
    signal.alarm(8 * limit)
    try:
        with np.errstate(all="ignore"):
            scn.fn(env, **scn.params)
        st = "ok"
    except CheckFailed: st = "ok"
    except Stop: st = "stopped"
    except TO:
        st = "timeout"; env.fails.append("does not come to an end within %d s of processor time" % limit)
    except Slow: st = "slow"
    except Exception as e:
        import traceback
        st = "exception"
        env.fails.append("raises %s: %s" % (type(e).__name__, str(e)[:300]))
        env.tb = traceback.format_exc()[-1500:]
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0); signal.alarm(0)
        signal.signal(signal.SIGPROF, old); signal.signal(signal.SIGALRM, oldw)
    return dict(status=st, fails=env.fails, obs=env.obs, nchecks=env.nchecks, covers=sorted(env.covers), tb=getattr(env, "tb", ""))
