"""Symbolic arrays: numpy object arrays (views, broadcasting and indexing are
numpy's own) carrying a logical element kind, and the numpy look-alike module
handed to the code under test."""
import math, types, builtins, functools, inspect
from fractions import Fraction
import numpy as np
from . import core
from .core import Sym, SymBool, EngineStop, Unsupported, raise_unsup, sand, sor, snot, _asb

RANK = {"b": 0, "i": 1, "f4": 2, "f": 3, "o": 4}
DT = {"b": np.dtype(bool), "i": np.dtype(int), "f4": np.dtype("f4"), "f": np.dtype(float), "o": np.dtype(object)}

def join(ks):
    ks = [k for k in ks if k is not None]
    if not ks: return "f"
    r = max(ks, key=RANK.get)
    if r == "f4" and "i" in ks: return "f"
    return r

def dtkind(t):
    if t is None: return None
    s = getattr(t, "_shim_real", None)
    if s is not None: t = s
    if t is float: return "f"
    if t is int: return "i"
    if t is bool: return "b"
    if t is object: return "o"
    try:
        d = np.dtype(t)
    except TypeError:
        if isinstance(t, type) and issubclass(t, np.floating): return "f"
        if isinstance(t, type) and issubclass(t, np.integer): return "i"
        raise
    return dtk(d)
def dtk(d):
    if d.kind == "f": return "f4" if d.itemsize <= 4 else "f"
    if d.kind in "iu": return "i"
    if d.kind == "b": return "b"
    if d.kind == "c": raise_unsup("complex arrays")
    return "o"

def width(t):
    "range of a fixed-width integer type (None: no narrower than 64 bits)"
    s = getattr(t, "_shim_real", None)
    if s is not None: t = s
    if t is None or t in (int, float, bool, object): return None
    try: d = np.dtype(t)
    except TypeError: return None
    if d.kind not in "iu" or (d.kind == "i" and d.itemsize == 8): return None
    i = np.iinfo(d)
    return int(i.min), int(i.max)
def fit(x, w):
    "an integer stored in a type of range w wraps around"
    if w is None: return x
    lo, hi = w
    if isinstance(x, Sym):
        if conc(sand(x >= lo, x <= hi)): return x
        return core.s_mod(x - lo, hi - lo + 1) + lo
    return np.int64((int(x) - lo) % (hi - lo + 1) + lo) if hi < 2**63 else x
def fitted(a, w):
    if w is None: return a
    o = plain(a)
    if o.ndim == 0: return a
    out = obj(o.shape); f = out.reshape(-1)
    for i, v in enumerate(o.reshape(-1)): f[i] = fit(v, w)
    return wrap(out, "i")

def skind(x):
    if isinstance(x, Sym): return x.k
    if isinstance(x, (SymBool, bool, np.bool_)): return "b"
    if isinstance(x, (int, np.integer)): return "i"
    if isinstance(x, np.float32): return "f4"
    if isinstance(x, (float, np.floating, Fraction)): return "f"
    return "o"

def coerce(x, k):
    if isinstance(x, np.ndarray) and x.ndim == 0: x = x.item() if not isinstance(x, SArr) else np.ndarray.item(x.view(np.ndarray))
    if k in ("o", None): return x
    if k == "f":
        if isinstance(x, Sym): return x if x.k == "f" else core.fold(Sym(x.p, "f", x.nn))
        if isinstance(x, SymBool): return np.float64(x._num())
        if isinstance(x, str): return np.float64(x)
        if x is None: return np.float64("nan")
        if isinstance(x, Fraction): return core.fold(Sym(core.pconst(core._n(x)), "f"))
        return np.float64(x)
    if k == "f4":
        return core.s_f32(coerce(x, "f")) if isinstance(coerce(x, "f"), Sym) else np.float64(np.float32(coerce(x, "f")))
    if k == "i":
        if isinstance(x, Sym): return x if x.k == "i" else core.s_trunc(x)
        if isinstance(x, SymBool): return np.int64(x._num())
        if isinstance(x, (float, np.floating)) and not math.isfinite(x): return np.int64(-2**63)
        return np.int64(int(x))
    if k == "b":
        if isinstance(x, Sym): return x != 0
        if isinstance(x, SymBool): return x
        return bool(x)
    return x

def is_sym(x): return isinstance(x, (Sym, SymBool))
def conc(x):
    "plain python truth of a possibly symbolic boolean"
    return bool(x)

_ONE_DIM = object()
def obj(shape):
    return np.empty(shape, dtype=object)
def wrap(a, k):
    if isinstance(a, np.ndarray):
        r = a.view(SArr) if a.dtype == object or isinstance(a, SArr) else wrap_real(a)
        r._k = k
        return r
    return a
def wrap_real(a):
    "real numpy array -> SArr"
    k = dtk(np.ndarray.dtype.__get__(a))
    if k == "f4":
        o = a.astype(float).astype(object)
    else:
        o = a.astype(object)
    out = obj(a.shape)
    if k in ("f", "f4"):
        for i, v in enumerate(o.flat): out.flat[i] = np.float64(v)
    elif k == "i":
        for i, v in enumerate(o.flat): out.flat[i] = np.int64(v)
    else:
        for i, v in enumerate(o.flat): out.flat[i] = v
    r = out.view(SArr); r._k = k
    return r
def plain(a):
    return a.view(np.ndarray) if isinstance(a, SArr) else a
def cast(a, k):
    "copy of SArr a with kind k"
    p = plain(a)
    out = obj(p.shape)
    if p.ndim == 0:
        out[()] = coerce(p.item(), k)
    else:
        f = out.reshape(-1)
        for i, v in enumerate(p.reshape(-1)): f[i] = coerce(v, k)
    r = out.view(SArr); r._k = k
    return r

def build(x):
    "anything array-like -> SArr (fresh)"
    if isinstance(x, SArr): return x.copy()
    if isinstance(x, np.ndarray):
        if np.ndarray.dtype.__get__(x) == object:
            ks = join([skind(v) for v in x.flat]) if x.size else "o"
            return cast(x, ks)
        return wrap_real(x)
    if hasattr(x, "__sarr__"): return build(x.__sarr__())
    if isinstance(x, (list, tuple, range)):
        parts = [build(v) for v in x]
        if not parts: return wrap(obj((0,)), "f")
        sh = parts[0].shape
        for p in parts:
            if p.shape != sh:
                raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
        k = join([p._k for p in parts])
        out = obj((len(parts),) + sh)
        for i, p in enumerate(parts):
            if sh == (): out[i] = coerce(plain(p).item(), k)
            else: out[i] = plain(cast(p, k) if p._k != k else p)
        return wrap(out, k)
    if isinstance(x, np.generic) and not isinstance(x, (np.str_,)):
        k = skind(x)
        o = obj(()); o[()] = coerce(x, k); return wrap(o, k)
    k = skind(x)
    o = obj(()); o[()] = coerce(x, k) if k != "o" else x
    return wrap(o, k)
def asarr(x, k=None):
    a = x if isinstance(x, SArr) else build(x)
    if k is not None and a._k != k: a = cast(a, k)
    return a

def has_sym(x):
    if is_sym(x): return True
    if isinstance(x, SArr): return any(is_sym(v) for v in plain(x).flat)
    if isinstance(x, (list, tuple)): return any(has_sym(v) for v in x)
    if isinstance(x, dict): return any(has_sym(v) for v in x.values())
    return False
def to_real(x):
    "concrete SArr -> real numpy array (Unsupported if symbolic)"
    if isinstance(x, SArr):
        if has_sym(x): raise_unsup("symbolic array in an operation without symbolic model")
        return plain(x).astype(DT[x._k])
    if is_sym(x): raise_unsup("symbolic scalar in an operation without symbolic model")
    if isinstance(x, list): return [to_real(v) for v in x]
    if isinstance(x, tuple): return tuple(to_real(v) for v in x)
    if isinstance(x, dict): return {k: to_real(v) for k, v in x.items()}
    r = getattr(x, "_shim_real", None)
    return r if r is not None else x
def from_real(x):
    if isinstance(x, SArr): return x
    if isinstance(x, np.ndarray): return wrap_real(x)
    if isinstance(x, list): return [from_real(v) for v in x]
    if type(x) is tuple: return tuple(from_real(v) for v in x)
    return x

# ------------------------------------------------------------------ indexing
def cidx(idx):
    "index with symbolic content -> index numpy understands (forks)"
    if isinstance(idx, tuple): return tuple(_ci(i) for i in idx)
    return _ci(idx)
def _ci(i):
    if isinstance(i, Sym):
        if i.k != "i": raise IndexError("only integers, slices, ... are valid indices")
        return core.concretise(i)
    if isinstance(i, SymBool): return bool(i)
    if isinstance(i, SArr):
        if i._k == "b": 
            out = np.empty(i.shape, dtype=bool)
            p = plain(i)
            if i.ndim == 0: return bool(p.item())
            o = out.reshape(-1)
            for n, v in enumerate(p.reshape(-1)): o[n] = bool(v)
            return out
        if i._k == "i":
            out = np.empty(i.shape, dtype=int)
            p = plain(i)
            if i.ndim == 0: return core.concretise(p.item())
            o = out.reshape(-1)
            for n, v in enumerate(p.reshape(-1)): o[n] = core.concretise(v)
            return out
        if i.size == 0: return np.empty(i.shape, dtype=int) if i._k != "f" else plain(i)
        raise IndexError("arrays used as indices must be of integer (or boolean) type")
    if isinstance(i, (list,)):
        if not has_sym(i) and not any(isinstance(v, SArr) for v in i): return i
        a = build(i)
        return _ci(a) if a.size else np.empty(a.shape, dtype=int)
    if isinstance(i, slice):
        f = lambda v: core.concretise(v) if isinstance(v, Sym) else v
        return slice(f(i.start), f(i.stop), f(i.step))
    if isinstance(i, float) and not isinstance(i, (np.floating,)): raise IndexError("only integers, slices ... are valid indices")
    return i

class SArr(np.ndarray):
    __array_priority__ = 2000
    def __array_finalize__(self, o):
        self._k = getattr(o, "_k", "o")
    def __array_ufunc__(self, uf, method, *inputs, **kw):
        return ufunc_handler(uf, method, inputs, kw)
    def __array_function__(self, func, types, args, kwargs):
        mod = getattr(func, "__module__", "") or ""
        return call_np(func, func.__name__, args, kwargs, "linalg" in mod)
    @property
    def dtype(self): return DT[self._k]
    @property
    def itemsize(self): return DT[self._k].itemsize
    @property
    def flat(self): return Flat(self)
    @flat.setter
    def flat(self, v): Flat(self)[:] = v
    @property
    def real(self): return self
    @property
    def T(self): return self.transpose()
    def __getitem__(self, idx):
        return np.ndarray.__getitem__(self, cidx(idx))
    def __setitem__(self, idx, val):
        idx = cidx(idx)
        k = self._k
        v = val if isinstance(val, SArr) else build(val)
        v = cast(v, k) if v._k != k else v
        p = plain(v)
        me = plain(self)
        if p.ndim == 0:
            x = p.item()
            t = me[idx]
            if isinstance(t, np.ndarray):
                w = obj(t.shape); w.fill(x); me[idx] = w
            else:
                me[idx] = x
        else:
            t = me[idx]
            if not isinstance(t, np.ndarray) :
                if p.size == 1: 
                    me[idx] = p.reshape(-1)[0]
                    return
                raise ValueError("setting an array element with a sequence.")
            me[idx] = p
    def __contains__(self, x):
        return bool(np_any(self == x))
    def __iter__(self):
        if self.ndim == 0: raise TypeError("iteration over a 0-d array")
        for i in range(len(self)): yield self[i]
    def __deepcopy__(self, memo):
        if self._k == "o":
            import copy
            r = plain(self).copy()
            f = r.reshape(-1)
            for i in range(f.size): f[i] = copy.deepcopy(f[i], memo)
            return wrap(r, "o")
        return wrap(plain(self).copy(), self._k)
    def __copy__(self): return self.copy()
    def __bool__(self):
        if self.size == 1: return bool(plain(self).reshape(-1)[0])
        if self.size == 0: raise ValueError("The truth value of an empty array is ambiguous.")
        raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")
    def __eq__(self, o):
        if isinstance(o, str) or o is None: return wrap(_full(self.shape, False), "b")
        return np.equal(self, o)
    def __ne__(self, o):
        if isinstance(o, str) or o is None: return wrap(_full(self.shape, True), "b")
        return np.not_equal(self, o)
    __hash__ = None
    def __float__(self): return _scal(self).__float__()
    def __int__(self):
        v = _scal(self); return core.concretise(core.s_trunc(v)) if isinstance(v, Sym) else int(v)
    def __index__(self):
        v = _scal(self); return v.__index__()
    def __repr__(self): return "SArr<%s>(%s)" % (self._k, plain(self).tolist())
    __str__ = __repr__
    def __format__(self, spec):
        if spec and self.ndim: raise TypeError("unsupported format string passed to numpy.ndarray.__format__")
        return str(self) if not spec else format(_scal(self), spec)
    def __matmul__(self, o): return matmul(self, o)
    def __rmatmul__(self, o): return matmul(o, self)
    def __imatmul__(self, o): self[...] = matmul(self, o); return self
    def __divmod__(self, o): return self // o, self % o
    def astype(self, t, *a, **k): return fitted(cast(self, dtkind(t)), width(t))
    def copy(self, *a, **k): return wrap(plain(self).copy(), self._k)
    def item(self, *a):
        if a: return plain(self)[a[0]] if len(a) == 1 and not isinstance(a[0], tuple) and self.ndim == 1 else plain(self).item(*a)
        return plain(self).reshape(-1)[0] if self.size == 1 else plain(self).item()
    def tolist(self):
        def py(v):
            if isinstance(v, list): return [py(x) for x in v]
            return v.item() if isinstance(v, np.generic) else v
        return py(plain(self).tolist())
    def fill(self, v): 
        v = coerce(v, self._k)
        p = plain(self)
        w = obj(p.shape); w.fill(v); p[...] = w
    def take(self, indices, axis=None, out=None, mode="raise"): return np_take(self, indices, axis)
    def argsort(self, axis=-1, kind=None, order=None, **k): return np_argsort(self, axis)
    def sort(self, axis=-1, *a, **k): self[...] = np_sort(self, axis)
    def argmax(self, axis=None, *a, **k): return np_argmax(self, axis)
    def argmin(self, axis=None, *a, **k): return np_argmin(self, axis)
    def any(self, axis=None, out=None, keepdims=False, **k): return np_any(self, axis, keepdims=keepdims)
    def all(self, axis=None, out=None, keepdims=False, **k): return np_all(self, axis, keepdims=keepdims)
    def nonzero(self): return np_nonzero(self)
    def round(self, decimals=0, out=None): return np_round(self, decimals)
    def clip(self, min=None, max=None, out=None, **k): return np_clip(self, min, max)
    def dot(self, o, out=None): return np_dot(self, o)
    def mean(self, axis=None, *a, **k): return np_mean(self, axis)
    def sum(self, axis=None, dtype=None, out=None, **k): return reduce_("add", self, axis, **k)
    def prod(self, axis=None, dtype=None, out=None, **k): return reduce_("multiply", self, axis, **k)
    def max(self, axis=None, out=None, **k): return reduce_("maximum", self, axis, **k)
    def min(self, axis=None, out=None, **k): return reduce_("minimum", self, axis, **k)
    def ptp(self, axis=None): return self.max(axis) - self.min(axis)
    def cumsum(self, axis=None, *a, **k): return np_cumsum(self, axis)
    def conj(self): return self
    conjugate = conj
    def trace(self, *a, **k): return np_diag(self).sum()
    def searchsorted(self, v, side="left", sorter=None): return np_searchsorted(self, v, side, sorter)
    def repeat(self, n, axis=None): return wrap(plain(self).repeat(core.concretise(n) if isinstance(n, Sym) else to_real(n), axis), self._k)
    def put(self, i, v): Flat(self)[i] = v
    def compress(self, c, axis=None): return np_take(self, np.nonzero(cidx(asarr(c, "b")))[0], axis)
    def flatten(self, *a): return wrap(plain(self).flatten(*a), self._k)
    def std(self, *a, **k): raise_unsup("std")
    var = std
    def tobytes(self, *a): return to_real(self).tobytes()
    def __reduce__(self): raise_unsup("pickling of arrays")

class Flat:
    def __init__(self, a): self.a = a
    def _v(self):
        a = self.a
        return np.arange(a.size).reshape(a.shape)
    def __len__(self): return self.a.size
    def __iter__(self): return iter(list(plain(self.a).reshape(-1)))
    def __getitem__(self, i): return wrap(plain(self.a).reshape(-1), self.a._k)[i]
    def __setitem__(self, i, v):
        f = wrap(plain(self.a).reshape(-1).copy(), self.a._k)
        f[i] = v
        plain(self.a)[...] = plain(f).reshape(self.a.shape)
    def __array__(self, *a, **k): return plain(self.a).reshape(-1)
    def __sarr__(self): return wrap(plain(self.a).reshape(-1).copy(), self.a._k)
    def copy(self): return self.__sarr__()

def _scal(a):
    if a.size != 1: raise TypeError("only length-1 arrays can be converted to Python scalars")
    return plain(a).reshape(-1)[0]
def _full(shape, v):
    o = obj(shape); o.fill(v); return o

# ------------------------------------------------------------------ ufuncs
def _num(f, realname=None):
    def g(*xs):
        if not any(is_sym(x) for x in xs): return NotImplemented
        return f(*xs)
    return g
def e_div(a, b):
    if not is_sym(a) and not is_sym(b):
        fa, fb = core._bad(a), core._bad(b)
        if not fa and not fb and b != 0 and not isinstance(a, SymBool):
            return core.fold(Sym(core.pconst(core._n(Fraction(core._frac(a)) / Fraction(core._frac(b)))), "f"))
        return np.true_divide(a, b)
    return core.s_div(a, b)
def nb(x): return x._num() if isinstance(x, SymBool) else x
def isnan_(x): return isinstance(x, (float, np.floating)) and x != x
def e_max(a, b):
    if isnan_(a): return a
    if isnan_(b): return b
    return a if conc(GE(a, b)) else b
def e_min(a, b):
    if isnan_(a): return a
    if isnan_(b): return b
    return a if conc(LE(a, b)) else b
def e_fmax(a, b):
    if isnan_(a): return b
    if isnan_(b): return a
    return a if conc(GE(a, b)) else b
def e_fmin(a, b):
    if isnan_(a): return b
    if isnan_(b): return a
    return a if conc(LE(a, b)) else b
def tb(x): return _asb(x)
def e_bit(op):
    def g(a, b):
        if skind(a) == "b" and skind(b) == "b": return op(tb(a), tb(b))
        if is_sym(a) or is_sym(b): raise_unsup("bit operation on symbolic integers")
        return NotImplemented
    return g
def e_inv(a):
    if skind(a) == "b": return snot(a)
    if isinstance(a, Sym): return -a - 1
    return NotImplemented
def e_rint(a): return core.s_round(a, 0, "f") if isinstance(a, Sym) else NotImplemented
def e_copysign(a, b):
    if not is_sym(a) and not is_sym(b): return NotImplemented
    m = abs(a)
    return m if b >= 0 else -m
def tofl(x): return coerce(x, "f")
def e_sign(a): return core.s_sign(a) if is_sym(a) else NotImplemented
def e2(f):
    def g(a, b):
        a, b = nb(a), nb(b)
        if isinstance(a, Sym) or isinstance(b, Sym): return f(a, b)
        return NotImplemented
    return g
def ecmp(rel, swap=False):
    def g(a, b):
        if isinstance(a, SymBool) or isinstance(b, SymBool):
            if rel in ("==", "!="):
                r = (a == b) if isinstance(a, SymBool) else (b == a)
                return r if rel == "==" else snot(r)
            a, b = nb(a), nb(b)
        if swap: a, b = b, a
        if isinstance(a, Sym) or isinstance(b, Sym):
            r = core.s_cmp(a, b, rel)
            if r is NotImplemented: raise TypeError("unorderable")
            return r
        return {"<": lambda: a < b, "<=": lambda: a <= b, "==": lambda: a == b, "!=": lambda: a != b}[rel]()
    return g
LT, LE, EQ, NE, GT, GE = ecmp("<"), ecmp("<="), ecmp("=="), ecmp("!="), ecmp("<", True), ecmp("<=", True)
EL = {
    "add": e2(core.s_add), "subtract": e2(core.s_sub), "multiply": e2(core.s_mul),
    "divide": e_div, "true_divide": e_div,
    "floor_divide": _num(core.s_floordiv), "remainder": _num(core.s_mod), "mod": _num(core.s_mod), "fmod": _num(lambda a, b: a - b * core.s_trunc(a / b)),
    "power": _num(core.s_pow), "float_power": _num(lambda a, b: tofl(core.s_pow(a, b))),
    "negative": lambda a: -nb(a), "positive": lambda a: a,
    "absolute": lambda a: abs(a), "fabs": lambda a: tofl(abs(a)),
    "sign": e_sign, "sqrt": _num(core.s_sqrt), "square": lambda a: core.s_mul(a, a) if is_sym(a) else a * a,
    "reciprocal": lambda a: e_div(1, a),
    "maximum": e_max, "minimum": e_min, "fmax": e_fmax, "fmin": e_fmin,
    "less": LT, "less_equal": LE, "greater": GT,
    "greater_equal": GE, "equal": EQ, "not_equal": NE,
    "logical_and": lambda a, b: sand(a, b), "logical_or": lambda a, b: sor(a, b), "logical_not": lambda a: snot(a),
    "logical_xor": lambda a, b: sor(sand(a, snot(b)), sand(snot(a), b)),
    "bitwise_and": e_bit(sand), "bitwise_or": e_bit(sor),
    "bitwise_xor": e_bit(lambda a, b: sor(sand(a, snot(b)), sand(snot(a), b))), "invert": e_inv, "bitwise_not": e_inv,
    "isnan": lambda a: False if is_sym(a) else bool(a != a), "isfinite": lambda a: True if is_sym(a) else bool(math.isfinite(a)),
    "isinf": lambda a: False if is_sym(a) else bool(math.isinf(a)),
    "floor": _num(lambda a: tofl(core.s_floor(a))), "ceil": _num(lambda a: tofl(-core.s_floor(-a))),
    "trunc": _num(lambda a: tofl(core.s_trunc(a))), "rint": e_rint,
    "hypot": _num(lambda a, b: core.s_sqrt(core.s_add(core.s_mul(a, a), core.s_mul(b, b)))),
    "copysign": e_copysign, "signbit": lambda a: LT(a, 0),
    "heaviside": lambda a, h: (a > 0) * 1.0 if not conc(a == 0) else h,
    "conjugate": lambda a: a, "clip": lambda a, lo, hi: e_min(e_max(a, lo), hi),
}
BOOLS = {"less", "less_equal", "greater", "greater_equal", "equal", "not_equal", "logical_and", "logical_or",
         "logical_not", "logical_xor", "isnan", "isfinite", "isinf", "signbit"}
FLOATS = {"divide", "true_divide", "sqrt", "hypot", "copysign", "fabs", "float_power", "reciprocal_f", "heaviside",
          "sin", "cos", "tan", "exp", "log", "arctan2", "arccos", "arcsin", "deg2rad", "rad2deg", "cbrt", "radians", "degrees"}
def rkind(name, ks):
    if name in BOOLS: return "b"
    k = join(ks)
    if name in FLOATS: return k if k in ("f4", "f", "o") else "f"
    if k == "b" and name in ("add", "multiply"): return "b"   # handled below
    if k == "b" and name not in ("bitwise_and", "bitwise_or", "bitwise_xor", "invert", "bitwise_not", "maximum", "minimum"): return "i"
    if name in ("floor", "ceil", "trunc", "rint"): return k
    return k
def elem(uf, name):
    f = EL.get(name)
    def g(*xs):
        if f is not None:
            r = f(*xs)
            if r is not NotImplemented: return r
        for x in xs:
            if is_sym(x): raise_unsup("ufunc %s on a symbolic value" % name)
        with np.errstate(all="ignore"):
            return uf(*xs)
    return g
class NpTypeError(TypeError):
    pass

def ufunc_handler(uf, method, inputs, kw):
    name = uf.__name__
    out = kw.pop("out", None)
    if isinstance(out, tuple): out = out[0] if len(out) == 1 else out
    where = kw.pop("where", True)
    dt = kw.pop("dtype", None)
    kw.pop("casting", None); kw.pop("order", None); kw.pop("subok", None)
    if name in ("matmul", "vecdot", "matvec", "vecmat") and method == "__call__":
        r = matmul(*inputs) if name == "matmul" else raise_unsup(name)
        return _store(out, r, True)
    if method in ("reduce", "accumulate", "reduceat"):
        if method == "reduce":
            ax = kw.get("axis", 0)
            r = reduce_(name, inputs[0], ax, keepdims=kw.get("keepdims", False), initial=kw.get("initial", None), where=where)
        elif method == "accumulate":
            r = accumulate_(name, inputs[0], kw.get("axis", 0))
        else:
            raise_unsup("reduceat")
        if dt is not None and isinstance(r, SArr): r = cast(r, dtkind(dt))
        return _store(out, r, True)
    if method == "at":
        tgt, idx = inputs[0], inputs[1]
        pos = np.arange(tgt.size).reshape(tgt.shape)[cidx(idx)]
        vals = plain(build(inputs[2])) if len(inputs) > 2 else None
        vals = np.broadcast_to(vals, pos.shape) if vals is not None else None
        g = elem(uf, name)
        flat = [v for v in plain(tgt).reshape(-1)]
        pp = np.asarray(pos).reshape(-1)
        vv = vals.reshape(-1) if vals is not None else None
        for n, q in enumerate(pp):
            flat[q] = coerce(g(flat[q], vv[n]) if vv is not None else g(flat[q]), tgt._k)
        o = obj(len(flat))
        for n, v in enumerate(flat): o[n] = v
        plain(tgt)[...] = o.reshape(tgt.shape)
        return None
    if method == "outer":
        a, b = asarr(inputs[0]), asarr(inputs[1])
        a2 = wrap(plain(a).reshape(a.shape + (1,) * b.ndim), a._k)
        return ufunc_handler(uf, "__call__", (a2, b), dict(kw))
    if method != "__call__": raise_unsup("ufunc method " + method)
    if name == "divmod":
        return ufunc_handler(np.floor_divide, "__call__", inputs, {}), ufunc_handler(np.remainder, "__call__", inputs, {})
    if name == "modf": raise_unsup("modf")
    # scalar fast path
    if out is None and where is True and not any(isinstance(x, (np.ndarray, list, tuple, range)) or hasattr(x, "__sarr__") for x in inputs):
        if any(not isinstance(x, (Sym, SymBool, int, float, np.generic, Fraction, bool)) for x in inputs):
            raise TypeError("unsupported operand type for " + name)
        r = elem(uf, name)(*inputs)
        return coerce(r, dtkind(dt)) if dt is not None else r
    arrs = [asarr(x) for x in inputs]
    if any(a._k == "o" for a in arrs) and name not in ("equal", "not_equal"):
        if any(v is None for a in arrs for v in plain(a).flat):
            raise TypeError("unsupported operand type(s) for %s: 'NoneType'" % name)
    ks = []
    hasarr = [a._k for x, a in zip(inputs, arrs) if isinstance(x, np.ndarray) and x.ndim]
    for x, a in zip(inputs, arrs):
        if type(x) in (int, float, bool) and hasarr:
            if type(x) is float and a._k == "f" and "f" not in hasarr and "f4" in hasarr: continue
            if type(x) is int and ("f4" in hasarr): continue
        ks.append(a._k)
    if name == "subtract" and ks and all(k == "b" for k in ks):
        raise TypeError("numpy boolean subtract, the `-` operator, is not supported")
    if name == "power" and join(ks) == "i":
        for e in plain(arrs[1]).flat:
            if not is_sym(e) and e < 0: raise ValueError("Integers to negative integer powers are not allowed.")
    if name == "invert" and join(ks) in ("f", "f4"):
        raise TypeError("ufunc 'invert' not supported for the input types")
    k = dtkind(dt) if dt is not None else rkind(name, ks)
    if k == "b" and name in ("add", "multiply"):
        name = "logical_or" if name == "add" else "logical_and"
        uf = getattr(np, name)
    g = elem(uf, name)
    if where is True or where is np._NoValue:
        r = np.frompyfunc(g, len(arrs), 1)(*[plain(a) for a in arrs])
    else:
        w = cidx(asarr(where, "b"))
        bs = np.broadcast_arrays(*[plain(a) for a in arrs], w)
        sh = bs[0].shape
        r = obj(sh)
        base = np.broadcast_to(plain(asarr(out)), sh) if out is not None else None
        for ix in np.ndindex(*sh):
            r[ix] = g(*[b[ix] for b in bs[:-1]]) if bs[-1][ix] else (base[ix] if base is not None else np.float64("nan"))
    if isinstance(r, np.ndarray):
        r = cast(r, k) if k != "b" else wrap(r, "b")
        if k == "b":
            p = plain(r).reshape(-1)
    else:
        r = coerce(r, k)
        if out is None: return r
    return _store(out, r, False)

def _store(out, r, any_cast):
    if out is None: return r
    rk_ = r._k if isinstance(r, SArr) else skind(r)
    if isinstance(out, SArr):
        if RANK[rk_] > RANK[out._k] and out._k in ("i", "b"):
            raise NpTypeError("Cannot cast ufunc output from dtype('%s') to dtype('%s') with casting rule 'same_kind'" % (DT[rk_], DT[out._k]))
        out[...] = r
        return out
    raise_unsup("real array as ufunc output")

IDENT = {"add": 0, "multiply": 1, "logical_or": False, "logical_and": True, "bitwise_or": 0}
def reduce_(name, a, axis=None, keepdims=False, initial=None, where=True, **kw):
    a = asarr(a)
    if initial is np._NoValue: initial = None
    if keepdims is np._NoValue: keepdims = False
    if axis is np._NoValue: axis = None
    if where is not True and where is not np._NoValue: raise_unsup("reduction with where")
    uf = getattr(np, name)
    g = elem(uf, name)
    p = plain(a)
    if a.ndim == 0:
        return p.item() if name not in ("logical_or", "logical_and") else tb(p.item())
    k = a._k
    if name in ("logical_or", "logical_and"): k = "b"
    elif k == "b" and name in ("add", "multiply"): k = "i"; p = plain(cast(a, "i"))
    def red(vals):
        it = list(vals)
        if initial is not None: it = [initial] + it
        if not it:
            if name not in IDENT: raise ValueError("zero-size array to reduction operation %s which has no identity" % name)
            return coerce(IDENT[name], k)
        if name in ("logical_or",): return sor(*it)
        if name in ("logical_and",): return sand(*it)
        r = it[0]
        for v in it[1:]: r = g(r, v)
        return coerce(r, k)
    if axis is None or (isinstance(axis, tuple) and len(axis) == a.ndim):
        r = red(p.reshape(-1))
        if keepdims:
            o = obj((1,) * a.ndim); o[...] = _full((1,) * a.ndim, r); return wrap(o, k)
        return r
    axes = axis if isinstance(axis, tuple) else (axis,)
    axes = tuple(sorted(x % a.ndim if -a.ndim <= x < a.ndim else _axerr(x, a.ndim) for x in axes))
    q = np.moveaxis(p, axes, range(-len(axes), 0))
    q = q.reshape(q.shape[:a.ndim - len(axes)] + (-1,))
    o = obj(q.shape[:-1])
    if o.ndim == 0: r = red(q)
    else:
        for ix in np.ndindex(*o.shape): o[ix] = red(q[ix])
        r = wrap(o, k)
    if keepdims:
        sh = tuple(1 if i in axes else n for i, n in enumerate(a.shape))
        r = r.reshape(sh)
    return r
def _axerr(x, n):
    raise np.exceptions.AxisError(x, n)
def accumulate_(name, a, axis=0):
    a = asarr(a)
    g = elem(getattr(np, name), name)
    if a._k == "b" and name in ("add", "multiply"): a = cast(a, "i")
    p = np.moveaxis(plain(a), axis, -1)
    o = obj(p.shape)
    for ix in np.ndindex(*p.shape[:-1]):
        r = None
        for n in range(p.shape[-1]):
            r = p[ix][n] if n == 0 else g(r, p[ix][n])
            o[ix + (n,)] = r
    return wrap(np.moveaxis(o, -1, axis), a._k)

def matmul(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim == 0 or b.ndim == 0: raise ValueError("matmul: Input operand does not have enough dimensions")
    k = join([a._k, b._k])
    if (a.shape[-1] if a.ndim else 0) == 0: return wrap(cast(wrap_real(np.matmul(np.zeros(a.shape), np.zeros(b.shape))), k), k)
    r = np.matmul(plain(a), plain(b))
    return cast(r, k) if isinstance(r, np.ndarray) else coerce(r, k)
def np_dot(a, b, out=None):
    a, b = asarr(a), asarr(b)
    k = join([a._k, b._k])
    if a.ndim and b.ndim and a.shape[-1] == 0:
        r = np.dot(np.zeros(a.shape), np.zeros(b.shape))
        return _store(out, wrap_real(r) if isinstance(r, np.ndarray) else r, True)
    r = np.dot(plain(a), plain(b))
    return _store(out, cast(r, k) if isinstance(r, np.ndarray) else coerce(r, k), True)

# ------------------------------------------------------------------ functions
def np_array(x, dtype=None, copy=True, ndmin=0, **kw):
    a = build(x)
    if dtype is not None and dtkind(dtype) != a._k: a = cast(a, dtkind(dtype))
    w = width(dtype) if dtype is not None else None
    if w:
        b = fitted(a, w)
        if not isinstance(x, np.ndarray) and any(u is not v and conc(u != v) for u, v in zip(plain(a).reshape(-1), plain(b).reshape(-1))):
            raise OverflowError("Python integer out of bounds for the integer type")
        a = b
    while a.ndim < ndmin: a = a[None]
    return a
def np_asarray(x, dtype=None, *a, **kw):
    if isinstance(x, SArr) and (dtype is None or dtkind(dtype) == x._k and not width(dtype)): return x
    return np_array(x, dtype)
def _shape(s):
    if isinstance(s, (tuple, list)): return tuple(core.concretise(v) if isinstance(v, Sym) else int(v) for v in s)
    if isinstance(s, SArr): return tuple(int(v) for v in s)
    return core.concretise(s) if isinstance(s, Sym) else s
def np_zeros(shape, dtype=float, *a, **k): return full_(shape, 0, dtkind(dtype) or "f")
def np_ones(shape, dtype=float, *a, **k): return full_(shape, 1, dtkind(dtype) or "f")
def np_full(shape, v, dtype=None, *a, **k):
    v = asarr(v)
    kk = dtkind(dtype) or v._k
    r = full_(shape, 0 if kk != "o" else None, kk); r[...] = v
    return r
def full_(shape, v, k):
    o = obj(_shape(shape)); o.fill(coerce(v, k)); return wrap(o, k)
def np_empty(shape, dtype=float, *a, **k):
    # unspecified content: named fresh values would be exact; a recognisable constant is used
    return full_(shape, 7.65625 if (dtkind(dtype) or "f") in ("f", "f4") else (77 if dtkind(dtype) == "i" else (False if dtkind(dtype) == "b" else None)), dtkind(dtype) or "f")
def like(v):
    def g(a, dtype=None, order=None, subok=None, shape=None):
        a = asarr(a)
        return full_(shape if shape is not None else a.shape, v, dtkind(dtype) or a._k)
    return g
def np_full_like(a, v, dtype=None, **k):
    a = asarr(a); r = full_(a.shape, 0, dtkind(dtype) or a._k); r[...] = v; return r
def np_eye(N, M=None, k=0, dtype=float, **kw):
    f = lambda v: core.concretise(v) if isinstance(v, Sym) else v
    return cast(wrap_real(np.eye(f(N), f(M), f(k))), dtkind(dtype) or "f")
def np_arange(*a, start=None, stop=None, step=None, dtype=None, **k):
    if start is not None or stop is not None or step is not None:
        a = list(a) + [None] * (3 - len(a))
        if a[1] is None and stop is None and start is None: start, a[0] = 0, None if a[0] is None else a[0]
        full = [a[0] if start is None else start, a[1] if stop is None else stop, a[2] if step is None else step]
        if a[0] is not None and start == 0 and a[1] is None and stop is None: full = [0, a[0], full[2]]
        a = [0 if full[0] is None else full[0], full[1], 1 if full[2] is None else full[2]]
    if has_sym(a):
        if all(skind(x) == "i" for x in a):
            return np_array(range(*[core.concretise(x) for x in a]), dtype=dtype if dtype is not None else int)
        raise_unsup("arange of symbolic reals")
    return wrap_real(np.arange(*to_real(a), dtype=DT[dtkind(dtype)] if dtype is not None else None))
def np_linspace(a, b, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = core.concretise(num) if isinstance(num, Sym) else num
    div = num - 1 if endpoint else num
    o = [a + (b - a) * Fraction(i, div) if is_sym(a) or is_sym(b) else None for i in range(num)] if num > 1 else [a]
    if not (is_sym(a) or is_sym(b)):
        return from_real(np.linspace(to_real(a), to_real(b), num, endpoint, retstep, DT[dtkind(dtype)] if dtype is not None else None))
    r = asarr(o, "f")
    if dtype is not None:
        if dtkind(dtype) == "i": r = asarr([core.s_floor(v) if isinstance(v, Sym) else math.floor(v) for v in plain(r)], "i")
        else: r = cast(r, dtkind(dtype))
    return r
def np_nonzero(a):
    a = asarr(a)
    m = cidx(asarr(a, "b")) if a.ndim else np.atleast_1d(bool(tb(plain(a).item())))
    return tuple(wrap_real(x) for x in np.nonzero(m))
def np_where(c, *ab, **kw):
    if kw: ab = (kw["x"], kw["y"])
    if not ab: return np_nonzero(c)
    c, a, b = asarr(c, "b"), asarr(ab[0]), asarr(ab[1])
    k = join([a._k, b._k])
    cc, aa, bb = np.broadcast_arrays(plain(c), plain(a), plain(b))
    if cc.ndim == 0:
        o = obj(()); o[()] = coerce(aa.item() if conc(cc.item()) else bb.item(), k); return wrap(o, k)
    o = obj(cc.shape)
    for ix in np.ndindex(*cc.shape):
        x, y = aa[ix], bb[ix]
        o[ix] = coerce(x, k) if (x is y) else coerce(x if conc(cc[ix]) else y, k)
    return wrap(o, k)
def _sortkey(vals):
    "stable insertion sort of positions (forks on comparisons)"
    idx = []
    for n in range(len(vals)):
        v = vals[n]
        p = len(idx)
        if isnan_(v): idx.append(n); continue
        while p > 0 and (isnan_(vals[idx[p - 1]]) or conc(LT(v, vals[idx[p - 1]]))): p -= 1
        idx.insert(p, n)
    return idx
def _along(a, axis, fn, k):
    a = asarr(a)
    if axis is None: a, axis = a.flatten(), 0
    if a.ndim == 0: a = a.reshape(1)
    p = np.moveaxis(plain(a), axis, -1)
    o = obj(p.shape)
    for ix in np.ndindex(*p.shape[:-1]):
        r = fn(list(p[ix]))
        for n, v in enumerate(r): o[ix + (n,)] = v
    return wrap(np.moveaxis(o, -1, axis), k or a._k)
def np_argsort(a, axis=-1, kind=None, order=None, **k):
    return _along(a, axis, lambda v: [np.int64(x) for x in _sortkey(v)], "i")
def np_sort(a, axis=-1, kind=None, order=None, **k):
    return _along(a, axis, lambda v: [v[x] for x in _sortkey(v)], None)
def _argext(a, axis, better):
    a = asarr(a)
    def one(vals):
        if not len(vals): raise ValueError("attempt to get argmax of an empty sequence")
        b = 0
        for n in range(1, len(vals)):
            if isnan_(vals[b]): break
            if isnan_(vals[n]) or conc(better(vals[n], vals[b])): b = n
        return np.int64(b)
    if axis is None: return one(list(plain(a).reshape(-1)))
    p = np.moveaxis(plain(a), axis, -1)
    if p.ndim == 1: return one(list(p))
    o = obj(p.shape[:-1])
    for ix in np.ndindex(*o.shape): o[ix] = one(list(p[ix]))
    return wrap(o, "i")
def _numb(f): return lambda x, y: f(nb(x), nb(y))
def np_argmax(a, axis=None, **k): return _argext(a, axis, GT)
def np_argmin(a, axis=None, **k): return _argext(a, axis, LT)
def np_any(a, axis=None, out=None, keepdims=False, **k): return reduce_("logical_or", a, axis, keepdims)
def np_all(a, axis=None, out=None, keepdims=False, **k): return reduce_("logical_and", a, axis, keepdims)
def np_round(a, decimals=0, out=None):
    if isinstance(a, Sym): return core.s_round(a, decimals, "f") if a.k == "f" else a
    a = asarr(a)
    f = lambda v: (core.s_round(v, decimals, "f") if v.k == "f" else v) if isinstance(v, Sym) else np.round(v, decimals)
    r = np.frompyfunc(f, 1, 1)(plain(a))
    return cast(r, a._k) if isinstance(r, np.ndarray) else r
def np_clip(a, a_min=None, a_max=None, out=None, min=None, max=None, **k):
    lo = a_min if a_min is not None else min
    hi = a_max if a_max is not None else max
    r = a
    if lo is not None: r = np.maximum(r, lo) if isinstance(r, np.ndarray) or isinstance(lo, np.ndarray) or is_sym(r) or is_sym(lo) else np.maximum(r, lo)
    if hi is not None: r = np.minimum(r, hi)
    if not isinstance(r, SArr) and isinstance(r, np.ndarray): r = wrap_real(r)
    return _store(out, r, True)
def np_isin(e, t, assume_unique=False, invert=False, **k):
    e, t = asarr(e), asarr(t)
    tv = list(plain(t).reshape(-1))
    def f(v):
        r = sor(*[EQ(v, x) for x in tv]) if tv else False
        return snot(r) if invert else r
    o = obj(e.shape)
    if e.ndim == 0: return f(plain(e).item())
    for ix in np.ndindex(*e.shape): o[ix] = f(plain(e)[ix])
    return wrap(o, "b")
def _fr(x):
    "decimal constant as a rational close to the float"
    return x
def np_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    def f(x, y):
        if not is_sym(x) and not is_sym(y): return bool(np.isclose(x, y, rtol, atol, equal_nan)) if not (is_sym(rtol) or is_sym(atol)) else abs(x - y) <= atol + rtol * abs(y)
        if core._bad(x) or core._bad(y): return False
        d = core.s_sub(x, y)
        if skind(x) == "i" and skind(y) == "i":
            lo, hi = _bounds(y)
            if lo is not None and hi is not None and not is_sym(rtol) and atol + rtol * max(abs(lo), abs(hi)) < 1:
                return d == 0
        t = core.s_add(core.lift(atol), core.s_mul(core.lift(rtol), core.s_abs(y) if is_sym(y) else abs(y)))
        return sand(LE(d, t), LE(-d, t))
    r = np.frompyfunc(f, 2, 1)(plain(asarr(a)), plain(asarr(b)))
    return wrap(r, "b") if isinstance(r, np.ndarray) else r
def _bounds(y):
    if not isinstance(y, Sym): return (y, y)
    if len(y.p.t) == 1:
        (m, c), = y.p.t.items()
        if len(m) == 1 and m[0][1] == 1 and c == 1:
            a = core.CTX.atoms[m[0][0]]
            return a.lo, a.hi
    return None, None
def np_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = np_isclose(a, b, rtol, atol, equal_nan)
    return conc(np_all(r)) if isinstance(r, np.ndarray) else conc(r)
def np_array_equal(a, b, equal_nan=False):
    a, b = asarr(a), asarr(b)
    if a.shape != b.shape: return False
    return conc(np_all(np.equal(a, b)))
def np_array_equiv(a, b):
    try: np.broadcast_shapes(asarr(a).shape, asarr(b).shape)
    except ValueError: return False
    return conc(np_all(np.equal(asarr(a), asarr(b))))
def np_unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    a = asarr(a)
    if axis is not None: raise_unsup("unique with axis")
    v = list(plain(a).reshape(-1))
    s = _sortkey(v)
    out, first, inv, cnt = [], [], [0] * len(v), []
    for i in s:
        if out and conc(EQ(v[i], out[-1])): cnt[-1] += 1
        else: out.append(v[i]); first.append(i); cnt.append(1)
        inv[i] = len(out) - 1
    o = obj(len(out))
    for i, x in enumerate(out): o[i] = x
    r = [wrap(o, a._k)]
    if return_index: r.append(asarr(first, "i"))
    if return_inverse: r.append(asarr(inv, "i").reshape(a.shape))
    if return_counts: r.append(asarr(cnt, "i"))
    return r[0] if len(r) == 1 else tuple(r)
def np_searchsorted(a, v, side="left", sorter=None):
    a = asarr(a)
    if sorter is not None: a = a[sorter]
    av = list(plain(a))
    def one(x):
        n = 0
        for y in av:
            if conc(LT(y, x) if side == "left" else LE(y, x)): n += 1
            else: break
        return np.int64(n)
    if not isinstance(v, (np.ndarray, list, tuple)): return one(v)
    v = asarr(v)
    o = obj(v.shape)
    for ix in np.ndindex(*v.shape): o[ix] = one(plain(v)[ix])
    return wrap(o, "i")
def np_take(a, indices, axis=None, out=None, mode="raise"):
    a = asarr(a)
    if isinstance(indices, Sym): i = core.concretise(indices)
    elif isinstance(indices, np.ndarray) and not isinstance(indices, SArr): i = indices
    else:
        i = asarr(indices)
        i = cidx(i if i.size else cast(i, "i"))
    if isinstance(i, np.ndarray) and i.dtype == bool: i = i.astype(int)
    r = np.take(plain(a), i, axis=axis, mode=mode)
    return wrap(r, a._k) if isinstance(r, np.ndarray) else r
def np_delete(a, o, axis=None):
    a = asarr(a)
    if isinstance(o, (list, tuple)) and len(o) == 0: o = np.empty(0, dtype=int)
    return wrap(np.delete(plain(a), cidx(asarr(o)) if isinstance(o, (list, tuple, SArr)) else _ci(o), axis), a._k)
def np_insert(a, o, v, axis=None):
    a = asarr(a)
    vv = asarr(v, a._k)
    i = cidx(asarr(o)) if isinstance(o, (list, tuple, SArr)) else _ci(o)
    p = plain(vv)
    r = np.insert(plain(a), i, p if p.ndim else p.item(), axis) if True else None
    return wrap(r, a._k)
def np_mean(a, axis=None, *x, **k):
    a = asarr(a)
    n = a.size if axis is None else a.shape[axis]
    return reduce_("add", a, axis) / n
def np_cumsum(a, axis=None, *x, **k):
    a = asarr(a)
    if axis is None: a, axis = a.flatten(), 0
    return accumulate_("add", a, axis)
def np_diff(a, n=1, axis=-1, **k):
    a = asarr(a)
    for _ in range(n):
        q = np.moveaxis(plain(a), axis, 0)
        a = wrap(np.moveaxis(q[1:], 0, axis), a._k) - wrap(np.moveaxis(q[:-1], 0, axis), a._k)
    return a
def np_diag(v, k=0):
    v = asarr(v)
    if v.ndim == 1:
        n = v.size + abs(k)
        r = full_((n, n), 0, v._k)
        for i in range(v.size): r[(i, i + k) if k >= 0 else (i - k, i)] = plain(v)[i]
        return r
    return wrap(np.diagonal(plain(v), k).copy(), v._k)
def np_trace(a, offset=0, *x, **k): return np_diag(a, offset).sum()
def np_count_nonzero(a, axis=None, **k): return reduce_("add", cast(wrap_real(cidx(asarr(a, "b"))), "i"), axis)
def np_copyto(dst, src, casting="same_kind", where=True):
    if where is True: dst[...] = src
    else:
        m = cidx(asarr(where, "b")); b = np.broadcast_to(plain(asarr(src)), dst.shape)
        dst[m] = wrap(b[np.broadcast_to(m, dst.shape)], skind(0.0) if False else asarr(src)._k)
def np_put(a, i, v, **k): Flat(a)[i] = v
def np_fill_diagonal(a, v, wrap=False):
    for i in range(min(a.shape)): a[(i,) * a.ndim] = v
def np_copy(a, *x, **k): return build(a)
def np_outer(a, b, out=None):
    return np.multiply.outer(asarr(a).flatten(), asarr(b).flatten())
def np_cross(a, b, **k):
    a, b = asarr(a), asarr(b)
    if a.ndim == 1 and b.ndim == 1 and a.size == b.size == 3:
        return asarr([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])
    return structural(np.cross, (a, b), k)
def np_setdiff1d(a, b, *x, **k):
    a = np_unique(a); return a[np_isin(a, b, invert=True)]
def np_intersect1d(a, b, *x, **k):
    a = np_unique(a); return a[np_isin(a, b)]
def np_union1d(a, b): return np_unique(np.concatenate((asarr(a).flatten(), asarr(b).flatten())))
def np_choose(a, ch, **k): raise_unsup("choose")
def np_dtype_result(*a): return DT[join([x._k if isinstance(x, SArr) else (skind(x) if not isinstance(x, type) else dtkind(x)) for x in a])]
def np_isscalar(x): return is_sym(x) or np.isscalar(x)
def np_size(a, axis=None): return asarr(a).size if axis is None else asarr(a).shape[axis]
def np_shape(a): return asarr(a).shape
def np_ndim(a): return asarr(a).ndim
def np_fromiter(it, dtype, count=-1, **k): return np_array(list(it), dtype=dtype)
def np_nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    a = asarr(x)
    f = lambda v: v if is_sym(v) else np.nan_to_num(v, nan=nan, posinf=posinf, neginf=neginf)
    r = np.frompyfunc(f, 1, 1)(plain(a))
    return cast(r, a._k) if isinstance(r, np.ndarray) else r
def np_nanmax(a, axis=None, **k): return reduce_("fmax", a, axis)
def np_nanmin(a, axis=None, **k): return reduce_("fmin", a, axis)
def np_lexsort(keys, axis=-1):
    keys = [list(plain(asarr(k))) for k in keys]
    idx = list(range(len(keys[0])))
    for k in keys: idx = [idx[i] for i in _sortkey([k[i] for i in idx])]
    return asarr(idx, "i")
def np_apply_along_axis(f, axis, a, *x, **k):
    a = asarr(a)
    p = np.moveaxis(plain(a), axis, -1)
    o = [f(wrap(p[ix].copy(), a._k), *x, **k) for ix in np.ndindex(*p.shape[:-1])]
    r = asarr(o)
    r = r.reshape(p.shape[:-1] + r.shape[1:])
    return r
def np_ix_(*a): return tuple(wrap_real(x) for x in np.ix_(*[cidx(asarr(v)) for v in a]))
def np_sum(a, axis=None, dtype=None, out=None, **k): return _store(out, reduce_("add", a, axis, **k), True)
def np_prod(a, axis=None, dtype=None, out=None, **k): return reduce_("multiply", a, axis, **k)
def np_amax(a, axis=None, out=None, **k): return reduce_("maximum", a, axis, **k)
def np_amin(a, axis=None, out=None, **k): return reduce_("minimum", a, axis, **k)
def np_ptp(a, axis=None, **k): return np_amax(a, axis) - np_amin(a, axis)
def np_average(a, axis=None, weights=None, **k):
    if weights is None: return np_mean(a, axis)
    w = asarr(weights); return (asarr(a) * w).sum(axis) / w.sum()
def np_partition(a, *x, **k): return np_sort(a)
def np_argpartition(a, *x, **k): return np_argsort(a)
def np_flatnonzero(a): return np_nonzero(asarr(a).flatten())[0]
def np_argwhere(a): return np.stack(np_nonzero(a), axis=1)
def np_logical(name):
    u = getattr(np, name)
    return lambda *a, **k: ufunc_handler(u, "__call__", a, k)
def np_append(arr, values, axis=None):
    a, v = asarr(arr), asarr(values)
    if axis is None: a, v, axis = a.flatten(), v.flatten(), 0
    return structural(np.concatenate, ((a, v),), {"axis": axis})
def np_real(x): return x
def np_select(conds, choices, default=0):
    r = default
    for c, v in zip(conds[::-1], choices[::-1]): r = np_where(c, v, r)
    return r
def np_extract(c, a): return asarr(a).flatten()[cidx(asarr(c, "b")).reshape(-1)]
def np_einsum(s, *ops, **k):
    ops = [asarr(o) for o in ops]
    kk = join([o._k for o in ops])
    r = np.einsum(s, *[plain(o) for o in ops], optimize=False)
    return cast(r, kk) if isinstance(r, np.ndarray) and r.ndim else coerce(r.item() if isinstance(r, np.ndarray) else r, kk)
def np_vectorize(f=None, *a, **k):
    def g(*args):
        r = np.frompyfunc(f, len(args), 1)(*[plain(asarr(x)) for x in args])
        return build(r) if isinstance(r, np.ndarray) else r
    return g

# linalg
def la_norm(x, ord=None, axis=None, keepdims=False):
    x = asarr(x)
    if x._k in ("i", "b"): x = cast(x, "f")
    if axis is None:
        v = x.flatten() if ord is None or ord in ("fro",) or x.ndim == 1 else None
        if v is None: raise_unsup("matrix norm")
        if ord in (None, 2, "fro"):
            return core.s_sqrt_sum(list(plain(v)))
        if ord == np.inf: return np_amax(abs(v))
        if ord == -np.inf: return np_amin(abs(v))
        if ord == 1: return abs(v).sum()
        raise_unsup("norm order")
    r = _along_reduce(x, axis, lambda v: la_norm(asarr(v), ord))
    if keepdims: r = np.expand_dims(r, axis) if isinstance(r, np.ndarray) else r
    return r
def _along_reduce(x, axis, f):
    p = np.moveaxis(plain(x), axis, -1)
    if p.ndim == 1: return f(list(p))
    o = obj(p.shape[:-1])
    for ix in np.ndindex(*o.shape): o[ix] = f(list(p[ix]))
    return wrap(o, x._k)
def la_det(a):
    a = asarr(a)
    if a.ndim != 2 or a.shape[0] != a.shape[1]: raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    if not has_sym(a): return np.float64(np.linalg.det(to_real(a)))
    return coerce(_det([list(r) for r in plain(a)]), "f")
def _det(m):
    n = len(m)
    if n == 0: return np.float64(1.0)
    if n == 1: return m[0][0]
    if n > 5: raise_unsup("determinant of a symbolic matrix larger than 5")
    s = 0
    for j in range(n):
        if not is_sym(m[0][j]) and m[0][j] == 0: continue
        d = m[0][j] * _det([r[:j] + r[j + 1:] for r in m[1:]])
        s = s + d if j % 2 == 0 else s - d
    return s
def la_inv(a):
    a = asarr(a)
    if not has_sym(a): return wrap_real(np.linalg.inv(to_real(a)))
    n = a.shape[0]
    m = [list(r) for r in plain(a)]
    d = _det(m)
    if conc(d == 0): raise np.linalg.LinAlgError("Singular matrix")
    o = obj((n, n))
    for i in range(n):
        for j in range(n):
            mn = [r[:i] + r[i + 1:] for k, r in enumerate(m) if k != j]
            c = _det(mn)
            o[i, j] = (c if (i + j) % 2 == 0 else -c) / d
    return cast(o, "f")
SOLVE_HOOK = None
def solve_lin(a, b, singular="raise"):
    a, b = asarr(a, "f"), asarr(b, "f")
    if a.ndim != 2 or a.shape[0] != a.shape[1]: raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    if b.shape[0] != a.shape[0]: raise ValueError("solve: mismatch of dimensions")
    n = a.shape[0]
    m = [list(r) for r in plain(a)]
    d = _det(m)
    if conc(d == 0):
        if singular == "raise": raise np.linalg.LinAlgError("Singular matrix")
        return full_(b.shape, float("nan"), "f")
    cols = [list(plain(b))] if b.ndim == 1 else [list(c) for c in plain(b).T]
    out = []
    for c in cols:
        xs = []
        for i in range(n):
            mm = [r[:i] + [c[k]] + r[i + 1:] for k, r in enumerate(m)]
            num = _det(mm)
            xs.append(num / d if is_sym(num) or is_sym(d) else e_div(num, d))
        out.append(xs)
    r = asarr(out, "f")
    return r[0] if b.ndim == 1 else r.T.copy()
def la_slogdet(a):
    d = la_det(a)
    return core.s_sign(d) if is_sym(d) else np.sign(d), raise_unsup("slogdet") if is_sym(d) else np.log(abs(d))

OVR = {n[3:]: f for n, f in globals().items() if n.startswith("np_") and callable(f)}
OVR.update(zeros_like=like(0), ones_like=like(1), empty_like=like(7.65625), full_like=np_full_like, max=np_amax, min=np_amin,
           around=np_round, round_=np_round, asanyarray=np_asarray, ascontiguousarray=np_asarray, asfarray=lambda a: asarr(a, "f"),
           identity=lambda n, dtype=float: np_eye(n, dtype=dtype), in1d=np_isin, cumulative_sum=np_cumsum, asfortranarray=np_asarray,
           vdot=lambda a, b: np_dot(asarr(a).flatten(), asarr(b).flatten()), inner=lambda a, b: np_dot(a, asarr(b).T if asarr(b).ndim > 1 else b),
           bool_=None, matmul=matmul, logical_and=None)
for _n in ("bool_", "logical_and", "dtype_result", "logical", "real"): OVR.pop(_n, None)
OVR["result_type"] = np_dtype_result
OVR["real"] = np_real
LA = {"norm": la_norm, "det": la_det, "inv": la_inv, "solve": solve_lin, "slogdet": la_slogdet,
      "multi_dot": lambda arrs, **k: functools.reduce(np_dot, arrs), "pinv": lambda a, *x, **k: la_inv(a),
      "vector_norm": lambda x, axis=None, keepdims=False, ord=2: la_norm(x, ord, axis, keepdims)}
STRUCT = {"concatenate", "concat", "vstack", "hstack", "dstack", "column_stack", "row_stack", "stack", "block", "tile", "repeat", "roll",
          "flip", "fliplr", "flipud", "transpose", "permute_dims", "swapaxes", "moveaxis", "squeeze", "expand_dims", "atleast_1d",
          "atleast_2d", "atleast_3d", "reshape", "ravel", "split", "array_split", "hsplit", "vsplit", "triu", "tril",
          "kron", "meshgrid", "broadcast_to", "broadcast_arrays", "diagonal", "tensordot", "rot90", "resize", "pad", "diagflat",
          "rollaxis", "cross", "trim_zeros", "unstack", "matrix_transpose"}

def structural(func, args, kw):
    ks = []
    def conv(x):
        if isinstance(x, SArr): ks.append(x._k); return plain(x)
        if isinstance(x, np.ndarray): y = wrap_real(x); ks.append(y._k); return plain(y)
        if is_sym(x) : ks.append(skind(x)); return x
        if isinstance(x, (list, tuple)):
            if any(isinstance(v, (np.ndarray, list, tuple)) or is_sym(v) for v in x):
                if has_sym(x) and not any(isinstance(v, np.ndarray) for v in x) and not any(isinstance(v, (list, tuple)) for v in x):
                    y = build(x); ks.append(y._k); return plain(y)
                return type(x)(conv(v) for v in x) if type(x) in (list, tuple) else [conv(v) for v in x]
            return x
        return x
    name = func.__name__
    SEQ = ("concatenate", "concat", "vstack", "hstack", "dstack", "column_stack", "row_stack", "stack")
    if name in SEQ and args:
        seq = [asarr(v) for v in args[0]]
        ks = [s._k for s in seq]
        k = join(ks)
        seq = [plain(cast(s, k) if s._k != k else s) for s in seq]
        dt = kw.pop("dtype", None)
        r = func(seq, *args[1:], **kw)
        r = wrap(r, k)
        return cast(r, dtkind(dt)) if dt is not None else r
    if name == "block":
        def bl(x): return [bl(v) for v in x] if isinstance(x, list) else (ks.append(asarr(x)._k) or plain(asarr(x)))
        t = bl(args[0]); k = join(ks)
        return cast(func(t), k)
    if args and not isinstance(args[0], np.ndarray) and isinstance(args[0], (list, tuple)) and name not in ("broadcast_arrays", "meshgrid"):
        a0 = asarr(args[0]); args = (a0,) + tuple(args[1:])
    a1 = [conv(args[0])] if args else []
    rest = []
    for x in args[1:]:
        if name in ("reshape", "broadcast_to", "tile", "resize") : rest.append(_shape(x) if not isinstance(x, str) else x)
        elif name in ("split", "array_split", "hsplit", "vsplit", "repeat", "roll"):
            rest.append(to_real(_ci(x)) if isinstance(x, (Sym, SArr)) else x)
        else: rest.append(conv(x))
    k2 = {n: (_shape(v) if isinstance(v, (Sym, SArr)) or has_sym(v) else v) for n, v in kw.items()}
    r = func(*a1, *rest, **k2)
    k = join(ks) if ks else "f"
    def w(x):
        if isinstance(x, np.ndarray): return wrap(x, k) if x.dtype == object else wrap_real(x)
        if isinstance(x, list): return [w(v) for v in x]
        if type(x) is tuple: return tuple(w(v) for v in x)
        return x
    r = w(r)
    if name in ("triu", "tril", "tensordot", "kron", "pad", "diagflat", "cross") and isinstance(r, SArr): r = cast(r, k)
    return r

IGNORE = {"order", "kind", "subok", "device", "like", "stable", "casting", "optimize", "assume_unique", "extobj"}
ALT = {"arange": ["start", "stop", "step"], "array": ["object", "dtype"], "where": ["condition", "x", "y"]}
_SIGS = {}
def _sig(f):
    if f not in _SIGS:
        try: _SIGS[f] = list(inspect.signature(f).parameters.values())
        except (TypeError, ValueError): _SIGS[f] = []
    return _SIGS[f]
def _bind(func, kw):
    "leading parameters of the real function given by keyword -> positional"
    kw, a = dict(kw), []
    for p in _sig(func):
        if p.name not in kw: break
        a.append(kw.pop(p.name))
    return tuple(a), kw
def _kwargs(f, func, name, args, kw):
    "keywords of the real function -> parameters of the model; those without a counterpart are refused, not dropped"
    mine = _sig(f)
    named = {p.name for p in mine if p.kind in (p.POSITIONAL_OR_KEYWORD, p.KEYWORD_ONLY)}
    real = _sig(func)
    names = ALT.get(name) or [p.name for p in real]
    default = {p.name: p.default for p in real}
    out = {}
    for n, v in kw.items():
        i = names.index(n) if n in names else -1
        if n in named and (n in default or not default or name in ALT): out[n] = v
        elif 0 <= i < len(mine) and mine[i].kind == mine[i].POSITIONAL_OR_KEYWORD and mine[i].name not in default: out[mine[i].name] = v
        elif n in ("initial", "where", "keepdims") and name in ("sum", "prod", "amax", "amin", "max", "min"): out[n] = v
        elif n in IGNORE: pass
        elif n in default and (v is default[n] or v is None): pass
        elif default and n not in default and name not in ALT: raise TypeError("%s() got an unexpected keyword argument %r" % (name, n))
        else: raise_unsup("numpy.%s(%s=)" % (name, n))
    return out

def call_np(func, name, args, kw, linalg=False):
    if linalg:
        f = LA.get(name)
        if f is not None and (has_sym(args) or name == "norm"): return f(*args, **kw)
        return from_real(func(*to_real(tuple(args)), **to_real(kw)))
    f = OVR.get(name)
    if f is not None: return f(*args, **(_kwargs(f, func, name, args, kw) if kw else kw))
    if name in STRUCT:
        if kw and not args: args, kw = _bind(func, kw)
        return structural(func, tuple(args), dict(kw))
    if has_sym(list(args)) or has_sym(kw): raise_unsup("numpy.%s on symbolic data" % name)
    return from_real(func(*to_real(tuple(args)), **to_real(kw)))

# ------------------------------------------------------------------ numpy look-alike
class _TyMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, (Sym, SymBool)): return skind(x) in cls._kinds
        return isinstance(x, cls._shim_real)
    def __subclasscheck__(cls, c):
        return issubclass(getattr(c, "_shim_real", c), cls._shim_real)
    def __eq__(cls, o): return o is cls or o == cls._shim_real
    def __hash__(cls): return hash(cls._shim_real)
    def __getattr__(cls, n): return getattr(cls._shim_real, n)
    def __call__(cls, *a, **k):
        k0 = cls._cast
        if a and (is_sym(a[0]) or isinstance(a[0], SArr)):
            x = a[0]
            if isinstance(x, SArr):
                if cls._shim_real in (float, int, bool): x = _scal(x)
                else: return cast(x, k0) if x.ndim else coerce(x.item(), k0)
            if cls._shim_real is bool: return bool(x)
            if cls._shim_real is int and isinstance(x, Sym): return core.s_trunc(x)
            return coerce(x, k0)
        if a and isinstance(a[0], str) and "\x01" in a[0] and cls._shim_real in (int, float) and len(a) == 1 and not k:
            m = core._TOK.fullmatch(a[0].strip())
            if m and core.TOKENS[m.group(0)][0].k == "i": return coerce(core.TOKENS[m.group(0)][0], k0)
        if a and isinstance(a[0], Fraction): return coerce(a[0], k0)
        if a and isinstance(a[0], (list, tuple)) and cls._shim_real.__module__ == "numpy": return np_array(a[0], cls._shim_real)
        return cls._shim_real(*a, **k)
def mkty(real, kinds, cast_):
    return _TyMeta("shim_" + real.__name__, (), {"_shim_real": real, "_kinds": kinds, "_cast": cast_, "__doc__": real.__doc__})
SFloat = mkty(float, ("f",), "f")
SInt = mkty(int, ("i",), "i")
SBool = mkty(bool, ("b",), "b")
class LazyRange:
    "range with symbolic ends; its values are looked at only when they are asked for"
    def __init__(self, start, stop, step): self.start, self.stop, self.step = start, stop, step
    def __len__(self):
        d = self.stop - self.start
        if self.step > 0: return max(0, -(-core.concretise(d) // core.concretise(self.step)))
        return max(0, -(-core.concretise(-d) // core.concretise(-self.step)))
    def __iter__(self):
        for i in range(len(self)): yield self.start + i * self.step
    def __sarr__(self): return list(self)
    def __getitem__(self, i):
        if isinstance(i, slice): return list(self)[i]
        n = len(self)
        if not -n <= i < n: raise IndexError("range object index out of range")
        return self.start + (i if i >= 0 else i + n) * self.step
    def __contains__(self, x): return any(bool(v == x) for v in self)
    def __eq__(self, o):
        if not isinstance(o, (range, LazyRange)): return NotImplemented
        return len(self) == len(o) and all(bool(x == y) for x, y in zip(self, o))
    __hash__ = None
class _RangeMeta(type):
    def __instancecheck__(cls, x): return isinstance(x, (range, LazyRange))
    def __eq__(cls, o): return o is cls or o is range or o is LazyRange
    def __hash__(cls): return hash(range)
    def __call__(cls, *a):
        if 1 <= len(a) <= 3 and any(isinstance(x, Sym) and not x.p.is_const() for x in a):
            for x in a:
                if skind(x) != "i": raise TypeError("'float' object cannot be interpreted as an integer")
            lo, hi = (0, a[0]) if len(a) == 1 else a[:2]
            return LazyRange(lo, hi, a[2] if len(a) == 3 else 1)
        return range(*[int(x.p.const()) if isinstance(x, Sym) and x.k == "i" else x for x in a])
SRange = _RangeMeta("range", (), {})
SNPF = mkty(np.float64, ("f",), "f")
SNPI = mkty(np.int64, ("i",), "i")
class _R:
    def __init__(self, real): self.r = real
    def __getitem__(self, key):
        ks = []
        def c(x):
            if isinstance(x, SArr): ks.append(x._k); return plain(x)
            if is_sym(x): ks.append(skind(x)); return x
            if isinstance(x, slice): return _ci(x)
            if isinstance(x, (list, tuple)): y = build(x); ks.append(y._k); return plain(y)
            if isinstance(x, (int, float)): ks.append(skind(x))
            return x
        k = tuple(c(x) for x in key) if isinstance(key, tuple) else c(key)
        r = self.r[k]
        kk = join(ks) if ks else None
        if r.dtype == object: return cast(r, kk)
        return wrap_real(r)

class UFuncShim:
    def __init__(self, real): self.real = real; self.__name__ = real.__name__
    def _f(self, method, a, k):
        if method == "at" or isinstance(a[0], (SArr, Sym, SymBool)) or any(isinstance(x, (SArr, Sym, SymBool)) or has_sym(x) for x in list(a) + list(k.values())) \
                or any(isinstance(x, (list, tuple, np.ndarray)) for x in a):
            return ufunc_handler(self.real, method, a, dict(k))
        r = getattr(self.real, method)(*to_real(tuple(a)), **to_real(k))
        return from_real(r)
    def __call__(self, *a, **k):
        if self.real.__name__ in ("matmul",): return matmul(*a[:2])
        return self._f("__call__", a, k)
    def reduce(self, *a, **k):
        if len(a) > 1: k["axis"] = a[1]
        return self._f("reduce", a[:1], k)
    def accumulate(self, *a, **k):
        if len(a) > 1: k["axis"] = a[1]
        return self._f("accumulate", a[:1], k)
    def outer(self, *a, **k): return self._f("outer", a, k)
    def at(self, *a, **k): return self._f("at", a, k)

class ShimNP(types.ModuleType):
    def __init__(self, real, name, linalg=False):
        super().__init__(name)
        self.__dict__["_real"] = real
        self.__dict__["_la"] = linalg
    def __getattr__(self, n):
        r = getattr(self._real, n)
        if n in TYPES and not self._la: v = TYPES[n]
        elif n in ("r_", "c_"): v = _R(r)
        elif n == "linalg" and not self._la: v = ShimNP(r, "numpy.linalg", True)
        elif n in ("errstate", "seterr", "ndindex", "ndarray", "printoptions", "set_printoptions", "finfo", "iinfo", "dtype", "get_printoptions"):
            v = r
            if n == "dtype": v = lambda t, *a, **k: DT[dtkind(t)] if not isinstance(t, (list, dict)) else r(t)
        elif n == "ix_": v = np_ix_
        elif isinstance(r, np.ufunc): v = UFuncShim(r)
        elif isinstance(r, type): v = r
        elif n == "newaxis" or not callable(r): v = r
        else:
            la = self._la
            def v(*a, _r=r, _n=n, **k):
                return call_np(_r, _n, a, k, la)
            v.__name__ = n
        if n == "vectorize": v = np_vectorize
        self.__dict__[n] = v
        return v
TYPES = {"float64": SNPF, "double": SNPF, "float_": SNPF, "longdouble": SNPF, "float32": mkty(np.float32, (), "f4"), "single": mkty(np.float32, (), "f4"),
         "int64": SNPI, "int32": mkty(np.int32, ("i",), "i"), "intp": SNPI, "int_": SNPI, "uint64": mkty(np.uint64, (), "i"), "int8": mkty(np.int8, (), "i"),
         "int16": mkty(np.int16, (), "i"), "float16": mkty(np.float16, (), "f4"),
         "bool_": mkty(np.bool_, ("b",), "b"), "bool": mkty(np.bool_, ("b",), "b"),
         "integer": mkty(np.integer, ("i",), "i"), "floating": mkty(np.floating, ("f",), "f"), "number": mkty(np.number, ("i", "f"), "f")}
shim_np = ShimNP(np, "numpy")
