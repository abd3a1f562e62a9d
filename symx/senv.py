"""Symbolic mode of the harness interface."""
import math
from fractions import Fraction
import numpy as np
from . import core, arr, stubs
from .core import Sym, SymBool, solve, snot, sand, sor, _asb, psub, reduce_defs, mkcmp, Poly
from .world import World, Stop
from .loader import STDLIB

_math = stubs._Math()
def _fakes(fs):
    d = {"numpy": arr.shim_np, "numpy.linalg": arr.shim_np.linalg, "math": _math}
    d.update(stubs.make_scipy())
    d.update(stubs.make_mpl(fs))
    return d
SB = dict(float=arr.SFloat, int=arr.SInt, bool=arr.SBool, range=arr.SRange)

class Candidate(Exception): pass

class SEnv:
    sym = True
    np = arr.shim_np
    def __init__(self, c):
        self.c, self.names, self.obs, self.covers = c, [], [], set()
        self.n_nf = self.n_z3 = self.n_wit = self.n_cross = 0
        self.cands, self.unknown = [], []
        self.world = None
    # --- the world
    def new_world(self, record=False):
        self.world = World(_fakes, SB, strict=True, allowed=STDLIB, record=record)
        return self.world
    def load(self, hooks=None, record=False):
        return self.new_world(record).load(hooks)
    def mod(self, name): return self.world.mod(name)
    # --- inputs
    def _atom(self, name, kind, lo, hi, pos=False):
        a = self.c.base_atom(name, kind, lo, hi, pos)
        assert (a.kind, a.lo, a.hi, a.pos) == (kind, lo, hi, pos), name
        self.names.append(name)
        return Sym(core.patom(a), "i" if kind == "int" else "f", nn=pos or (lo is not None and lo >= 0))
    def real(self, name, lo=None, hi=None, pos=False): return self._atom(name, "real", lo, hi, pos)
    def int(self, name, lo, hi): return self._atom(name, "int", lo, hi)
    def bool(self, name): return self._atom(name, "int", 0, 1) == 1
    def flag(self, name): return core.decide(self.bool(name))
    def choice(self, name, options):
        if len(options) == 1:
            self._atom(name, "int", 0, 0)
            return options[0]
        return options[core.concretise(self._atom(name, "int", 0, len(options) - 1))]
    def concrete(self, x): return core.concretise(x)
    def assume(self, c): core.assume(c)
    def truth(self, c): return bool(c)
    # --- checks
    def check(self, c, msg):
        if isinstance(c, np.ndarray): c = sand(*[_asb(x) for x in arr.plain(c).reshape(-1)])
        c = _asb(c)
        if c is True:
            self.n_nf += 1
            return
        if self.c.stop: raise self.c.stop
        if c is not False and c.key() in self.c.pckeys and self.c.pckeys[c.key()]:
            self.n_nf += 1
            return
        self._decide(c, msg)
    def _decide(self, c, msg):
        C = self.c
        n = True if c is False else snot(c)
        if c is False:
            self._cand(msg, [A for A in C.models][:2], True)
            return
        bad = [A for A in C.models if core.sb_eval(c, A) is False]
        if bad:
            self.n_wit += 1
            self._cand(msg, bad[:2], n)
            return
        r, vals = solve([n])
        if r == "unknown": r, vals = solve([n], timeout=C.timeout * 4, hard=True)
        if r == "unsat":
            self.n_z3 += 1
            return
        if r == "unknown":
            self.unknown.append(msg)
            return
        self._cand(msg, [], n, vals)
    def _cand(self, msg, models, neg, vals=None):
        "collect value assignments that should break the check"
        C = self.c
        outs = [self.values(A) for A in models]
        if not outs or vals is not None:
            pcs = [neg] if neg is not True else []
            probe = pcs or [sand(*C.pc)] if C.pc else pcs
            probe = [x for x in probe if x is not True]
            base0 = dict(C.models[0].v) if C.models else {}
            if not C.models and C.pc:
                # solve() only looks at what depends on the negated check: the rest
                # of the path condition has to be met as well
                pc = sand(*C.pc)
                if pc is not True:
                    for nice in (True, False):
                        r, v = solve([pc], timeout=C.timeout * (1 if nice else 3), nice=nice)
                        if r == "sat": base0 = v; break
            for nice in (True, False):
                if not probe: break
                r, v = solve(probe, timeout=C.timeout * (1 if nice else 3), nice=nice)
                if r == "unsat" and not nice and not models: return          # the path itself is infeasible
                if r == "sat":
                    base = dict(base0)
                    base.update(v)
                    outs.append(self.values(core.Assign(C, "cand", base)))
            if vals is not None:
                base = dict(base0)
                base.update(vals)
                outs.append(self.values(core.Assign(C, "cand", base)))
            if not probe and not outs: outs.append(self.values(core.Assign(C, 0)))
        self.cands.append((str(msg), outs[:4]))
    def values(self, A):
        out = {}
        for n in self.names:
            a = self.c.byname[n]
            x = A.val(a.id)
            out[n] = int(x) if a.kind == "int" else float(x)
        return out
    def eq(self, a, b, msg, scale=1.0):
        if arr.has_sym(a) or arr.has_sym(b) or isinstance(a, (np.ndarray, list, tuple)) or isinstance(b, (np.ndarray, list, tuple)):
            x, y = arr.asarr(a), arr.asarr(b)
            if x.shape != y.shape: return self._decide(False, "%s: shapes %s and %s" % (msg, x.shape, y.shape))
            fx, fy = list(arr.plain(x).reshape(-1)), list(arr.plain(y).reshape(-1))
        else: fx, fy = [a], [b]
        for i, (u, v) in enumerate(zip(fx, fy)):
            self._eq1(u, v, msg if len(fx) == 1 else "%s [component %d]" % (msg, i), scale)
    def _eq1(self, u, v, msg, scale):
        if isinstance(u, (str, type(None))) or isinstance(v, (str, type(None))):
            return self.check(u == v, msg)
        if isinstance(u, SymBool) or isinstance(v, SymBool): return self.check(_asb(u == v if isinstance(u, SymBool) else v == u), msg)
        if core._bad(u) or core._bad(v):
            ok = core._bad(u) and core._bad(v) and (u == v or (u != u and v != v))
            return self.check(bool(ok), msg)
        if core.lift(u) is None or core.lift(v) is None: return self.check(u is v, msg)
        p, q = core.lift(u).p, core.lift(v).p
        d = psub(p, q)
        if not d.t:
            self.n_nf += 1
            return
        if d.is_const():
            m = max(abs(float(p.const())), abs(float(q.const())))
            return self.check(abs(float(d.const())) <= 1e-6 * m + 1e-9 * scale, msg)
        d = noise(d, p, q)
        d = reduce_defs(d) if d.t else d
        if d.t: d = noise(d, d, d)
        if not d.t:
            self.n_nf += 1
            self._cross(p, q, msg)
            return
        if d.is_const(): return self.check(False, msg)
        self.check(mkcmp(d, "=="), msg)
    def same(self, u, v):
        "are the values obviously equal (used to pair things up, never as a verdict)"
        if core.lift(u) is None or core.lift(v) is None or core._bad(u) or core._bad(v): return False
        p, q = core.lift(u).p, core.lift(v).p
        d = psub(p, q)
        if d.t: d = noise(d, p, q)
        if d.t and not d.is_const(): d = reduce_defs(d)
        return not d.t
    xbudget = 0
    def _cross(self, p, q, msg):
        "ask z3 to confirm an equality settled by the normal form"
        if SEnv.xbudget <= 0 or len(p.t) + len(q.t) > 60: return
        SEnv.xbudget -= 1
        d = psub(p, q)
        d = noise(d, p, q)
        if not d.t or d.is_const(): return
        r, v = solve([SymBool("cmp", d, "!=")], timeout=700)
        if r == "unsat": self.n_cross += 1
        elif r == "sat" and not any(x.denominator > 2**45 for k in (p, q) for x in [Fraction(c) for c in k.t.values()]):
            self.unknown.append("normal form and z3 disagree: " + msg)
    def le(self, a, b, msg, scale=1.0):
        if not arr.is_sym(a) and not arr.is_sym(b):
            return self.check(bool(a <= b + 1e-6 * max(abs(a), abs(b)) + 1e-9 * scale), msg)
        self.check(a <= b, msg)
    def observe(self, name, v): self.obs.append((name, flat(v)))
    def cover(self, name): self.covers.add(name)
    def sqrt(self, x): return core.s_sqrt(x)
    def abs(self, x): return core.s_abs(x)
    def arr(self, x): return arr.asarr(x, "f") if not isinstance(x, arr.SArr) else arr.cast(x, "f")
    def iarr(self, x): return arr.asarr(x, "i")
    def is_sym(self, x): return arr.is_sym(x)
    def and_(self, *c): return sand(*c)
    def or_(self, *c): return sor(*c)
    def not_(self, c): return snot(c)
    def implies(self, a, b): return sor(snot(a), b)
    def lift(self, x): return core.lift(x)
    def obs_values(self, A):
        return [(n, [num(x, A) for x in flat(v)]) for n, v in self.obs]

def noise(d, p, q):
    "drop terms that are rounding noise of concrete floating point constants"
    m = max([abs(float(x)) for x in list(p.t.values()) + list(q.t.values())])
    t = {k: v for k, v in d.t.items() if abs(float(v)) > 1e-13 * m}
    return d if len(t) == len(d.t) else Poly(t)
def flat(x):
    if isinstance(x, arr.SArr): return list(arr.plain(x).reshape(-1))
    if isinstance(x, np.ndarray): return list(x.reshape(-1))
    if isinstance(x, (list, tuple)):
        out = []
        for v in x: out.extend(flat(v))
        return out
    return [x]
def num(x, A):
    if isinstance(x, Sym):
        v = core.peval(x.p, A)
        m = core.pmag(x.p, A)
        return None if v == v and m * 1e-11 > 1e-5 * abs(v) + 1e-7 else v      # lost to cancellation
    if isinstance(x, SymBool):
        r = core.sb_eval(x, A)
        return None if r is None else float(r)
    if isinstance(x, (bool, np.bool_)): return float(x)
    try: return float(x)
    except (TypeError, ValueError): return x if isinstance(x, str) and "\x01" not in x else None
