"""Symbolic core: exact Laurent polynomials over z3 constants, symbolic scalars,
path exploration by re-execution with z3 deciding every data dependent branch."""
import hashlib, math, time
from fractions import Fraction
import numpy as _np
import z3

# ---------------------------------------------------------------- control flow
class EngineStop(BaseException):
    """Base of the engine's own control flow (never an effect of the code under test)."""
class PathAbort(EngineStop):
    "path condition infeasible"
class Unsupported(EngineStop):
    "operation outside the encodable fragment"
class BoundExceeded(EngineStop):
    "an exploration bound was hit"

# ---------------------------------------------------------------- atoms
class Atom:
    __slots__ = ("id", "name", "kind", "arg", "z", "lo", "hi", "cons", "base", "pos", "depth")
    def __init__(self, id, name, kind, z, arg=None, lo=None, hi=None, pos=False):
        self.id, self.name, self.kind, self.z, self.arg = id, name, kind, z, arg
        self.lo, self.hi, self.pos = lo, hi, pos
        self.cons = []          # extra defining constraints (SymBool) of aux atoms
        self.base = None        # frozenset of base atom ids it depends on

class Poly:
    __slots__ = ("t", "_key")
    def __init__(self, t):
        self.t = t
        self._key = None
    def key(self):
        if self._key is None:
            self._key = tuple(sorted(self.t.items()))
        return self._key
    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)
    def const(self):
        return self.t.get((), 0)
    def atoms(self):
        return {a for m in self.t for a, _ in m}

P0 = Poly({})
def pconst(c):
    return Poly({(): c}) if c else P0
def patom(a):
    return Poly({((a.id, 1),): 1})
def padd(p, q):
    if len(p.t) < len(q.t):
        p, q = q, p
    t = dict(p.t)
    for m, c in q.t.items():
        s = t.get(m, 0) + c
        if s:
            t[m] = s
        else:
            del t[m]
    return Poly(t)
def pneg(p):
    return Poly({m: -c for m, c in p.t.items()})
def psub(p, q):
    return padd(p, pneg(q))
def pscale(p, c):
    if not c:
        return P0
    return Poly({m: _n(v * c) for m, v in p.t.items()})
def _n(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c
_mm = {}
def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    k = (a, b)
    r = _mm.get(k)
    if r is None:
        d = dict(a)
        for x, e in b:
            s = d.get(x, 0) + e
            if s:
                d[x] = s
            else:
                del d[x]
        r = tuple(sorted(d.items()))
        if len(_mm) > 2000000:
            _mm.clear()
        _mm[k] = r
    return r
MAXTERMS = 60000
def pmul(p, q):
    if len(p.t) * len(q.t) > 4000000:
        raise Unsupported("polynomial product too large (%d x %d terms)" % (len(p.t), len(q.t)))
    t = {}
    for m1, c1 in p.t.items():
        for m2, c2 in q.t.items():
            m = mmul(m1, m2)
            s = t.get(m, 0) + c1 * c2
            if s:
                t[m] = _n(s)
            else:
                t.pop(m, None)
    if len(t) > MAXTERMS:
        raise Unsupported("polynomial too large (%d terms)" % len(t))
    return Poly(t)
def ppow(p, n):
    if n < 0:
        assert len(p.t) == 1
        (m, c), = p.t.items()
        return Poly({tuple((a, e * n) for a, e in m): _n(Fraction(1) / Fraction(c) ** (-n))})
    r = pconst(1)
    while n:
        if n & 1:
            r = pmul(r, p)
        n >>= 1
        if n:
            p = pmul(p, p)
    return r

# ---------------------------------------------------------------- context
class Ctx:
    """One scenario: atom table, path state, solver statistics."""
    def __init__(self, seed=1, timeout_ms=8000):
        self.atoms = {}            # id -> Atom; ids depend only on what the atom stands for
        self.byname = {}
        self.bykey = {}
        self.seed = seed
        self.timeout = timeout_ms
        self.st = dict(queries=0, solver_s=0.0, unsat=0, sat=0, unknown=0, forks=0,
                       decisions=0, memo_hits=0, witness_hits=0)
        self.memo = {}
        self.zmemo = {}
        self.evals = {}
        self.reset_path([])
    # -- atoms
    def base_atom(self, name, kind, lo=None, hi=None, pos=False):
        a = self.byname.get(name)
        if a is None:
            z = z3.Int(name) if kind == "int" else z3.Real(name)
            a = Atom(self._id(0, name), name, kind, z, lo=lo, hi=hi, pos=pos)
            a.base, a.depth = frozenset([a.id]), 0
            self.byname[name] = a
            self.atoms[a.id] = a
        return a
    def derived(self, kind, p, extra=None):
        k = (kind, p.key(), extra)
        a = self.bykey.get(k)
        if a is None:
            ids = p.atoms()
            depth = 1 + max([self.atoms[i].depth for i in ids], default=0)
            i = self._id(depth, repr((kind, sorted((m, str(v)) for m, v in p.t.items()), extra)))
            nm = "%s!%x" % (kind, i)
            z = z3.Int(nm) if kind in ("trunc", "round", "floor") else z3.Real(nm)
            a = Atom(i, nm, kind, z, arg=p)
            a.base, a.depth = frozenset().union(*[self.atoms[x].base for x in ids]) | {a.id}, depth
            self.atoms[i] = a
            self.bykey[k] = a
        return a
    def _id(self, depth, text):
        i = (depth << 44) | (int.from_bytes(hashlib.md5(text.encode()).digest()[:5], "big") << 4)
        while i in self.atoms: i += 1       # (a collision would be found out by the fingerprints)
        return i
    # -- path state
    def reset_path(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.trace = []            # decisions taken
        self.pc = []               # SymBools that hold on this path
        self.pckeys = {}
        self.alts = []             # prefixes to explore later
        self.stop = None
        self.cnt = {}
        self.models = [Assign(self, i) for i in range(4)]
    def counter(self, name):
        c = self.cnt.get(name, 0)
        self.cnt[name] = c + 1
        return c
    def raise_stop(self, e):
        self.stop = self.stop or e
        raise e

CTX = None
def set_ctx(c):
    global CTX
    CTX = c
def ctx():
    return CTX

class Assign:
    "numeric assignment; base atoms missing from it are drawn deterministically"
    __slots__ = ("c", "tag", "v", "cache")
    def __init__(self, c, tag, v=None):
        self.c, self.tag, self.v, self.cache = c, tag, dict(v or {}), {}
    def val(self, i):
        x = self.cache.get(i)
        if x is not None:
            return x
        a = self.c.atoms[i]
        if a.kind in ("real", "int"):
            x = self.v.get(i)
            if x is None:
                h = hashlib.md5(("%s|%s|%s" % (self.c.seed, self.tag, a.name)).encode()).digest()
                u = int.from_bytes(h[:4], "big") / 2**32
                lo, hi = a.lo, a.hi
                if a.pos and not lo: lo = 0.25 if hi is None or hi > 0.5 else hi / 4
                if lo is None: lo = -3 if hi is None else hi - 6
                if hi is None: hi = lo + 6
                if a.kind == "int":
                    if hi - lo > 1000: hi = lo + 1000
                    x = int(lo + math.floor(u * (hi - lo + 1)))
                else:
                    if hi - lo > 20:
                        lo = max(lo, -4.0) if lo < 0 else lo
                        hi = min(hi, lo + 8.0)
                    x = round(float(lo) + u * float(hi - lo), 4)
                    x = min(max(x, float(lo)), float(hi))
                self.v[i] = x
        elif a.kind == "sqrt":
            p = peval(a.arg, self)
            x = math.sqrt(p) if p > 0 else (0.0 if p > -1e-9 else float("nan"))
        elif a.kind == "den":
            x = peval(a.arg, self)
        elif a.kind == "trunc":
            x = math.trunc(peval(a.arg, self))
        elif a.kind == "floor":
            x = math.floor(peval(a.arg, self))
        elif a.kind == "round":
            x = round(peval(a.arg, self))
        elif a.kind == "f32":
            x = float(_np.float32(peval(a.arg, self)))
        else:
            x = float("nan")
        self.cache[i] = x
        return x

def peval(p, A):
    s = 0.0
    for m, c in p.t.items():
        v = float(c)
        for a, e in m:
            x = A.val(a)
            if x == 0 and e < 0:
                return float("nan")
            v *= x ** e
        s += v
    return s
def peval_exact(p, A):
    "exact value or None"
    s = 0
    for m, c in p.t.items():
        v = c
        for a, e in m:
            k = A.c.atoms[a].kind
            if k in ("real", "int"):
                x = A.v.get(a)
                if x is None: A.val(a); x = A.v[a]
                x = Fraction(x)
            elif k == "den": x = peval_exact(A.c.atoms[a].arg, A)
            else: return None
            if x is None or (x == 0 and e < 0): return None
            v = v * x ** e
        s = s + v
    return s
def pmag(p, A):
    s = 0.0
    for m, c in p.t.items():
        v = abs(float(c))
        for a, e in m:
            x = A.val(a)
            if x == 0 and e < 0:
                return float("nan")
            v *= abs(x) ** e
        s += v
    return s

# ---------------------------------------------------------------- normalisation
def clear_neg(p):
    """multiply by a monomial so that all exponents are >= 0; -> (poly, monomial)"""
    mn = {}
    for m in p.t:
        for a, e in m:
            if e < 0 and e < mn.get(a, 0):
                mn[a] = e
    if not mn:
        return p, ()
    mono = tuple(sorted((a, -e) for a, e in mn.items()))
    return Poly({mmul(m, mono): c for m, c in p.t.items()}), mono

def reduce_defs(p):
    """substitute squares of square roots and general divisors by their
    definitions; equal to p up to a non-zero factor"""
    c = CTX
    while True:
        p, _ = clear_neg(p)
        best = None
        for m in p.t:
            for a, e in m:
                k = c.atoms[a].kind
                if (k == "sqrt" and e >= 2) or k == "den":
                    if best is None or a > best:
                        best = a
        if best is None:
            return p
        at = c.atoms[best]
        groups = {}
        for m, cf in p.t.items():
            e = dict(m).get(best, 0)
            rest = tuple(x for x in m if x[0] != best)
            groups.setdefault(e, {})[rest] = cf
        out = P0
        for e, t in groups.items():
            q = Poly(t)
            if at.kind == "den":
                if e: q = pmul(q, ppow(at.arg, e))
            else:
                if e >= 2: q = pmul(q, ppow(at.arg, e // 2))
                if e % 2: q = pmul(q, patom(at))
            out = padd(out, q)
        p = out

def reduce_exact(p):
    """value-preserving canonical form: substitutes squares of roots where
    exponents are positive and tries to cancel a common negative power"""
    q, mono = clear_neg(p)
    r = _sub_sqrt(q)
    if not mono:
        return r
    # divide back
    inv = tuple((a, -e) for a, e in mono)
    # even negative powers of roots: try to divide r by the radicand
    for a, e in mono:
        at = CTX.atoms[a]
        if at.kind == "sqrt":
            k = e
            while k >= 2:
                d = pdivexact(r, at.arg)
                if d is None:
                    break
                r = d
                k -= 2
            inv = tuple((x, (-k if x == a else y)) for x, y in inv)
    inv = tuple((x, y) for x, y in inv if y)
    return Poly({mmul(m, inv): c for m, c in r.t.items()})

def _sub_sqrt(p):
    c = CTX
    while True:
        best = None
        for m in p.t:
            for a, e in m:
                if c.atoms[a].kind == "sqrt" and e >= 2 and (best is None or a > best):
                    best = a
        if best is None:
            return p
        at = c.atoms[best]
        out = P0
        groups = {}
        for m, cf in p.t.items():
            e = dict(m).get(best, 0)
            rest = tuple(x for x in m if x[0] != best)
            groups.setdefault(e, {})[rest] = cf
        for e, t in groups.items():
            q = Poly(t)
            if e >= 2: q = pmul(q, ppow(at.arg, e // 2))
            if e % 2: q = pmul(q, patom(at))
            out = padd(out, q)
        if any(e < 0 for m in out.t for _, e in m):
            return out
        p = out

def _lead(p):
    return max(p.t, key=lambda m: (sum(e for _, e in m), tuple((-a, e) for a, e in m)))
def _grlex_key(m):
    return (sum(e for _, e in m), tuple((-a, e) for a, e in m))

def pdivexact(p, q, limit=3000):
    "exact polynomial division (non-negative exponents) or None"
    if not q.t:
        return None
    lq = _lead(q)
    cq = q.t[lq]
    dq = dict(lq)
    out = {}
    r = dict(p.t)
    n = 0
    while r:
        n += 1
        if n > limit:
            return None
        lm = max(r, key=_mono_order)
        dm = dict(lm)
        for a, e in dq.items():
            if dm.get(a, 0) < e:
                return None
        m = tuple(sorted((a, dm[a] - dq.get(a, 0)) for a in dm if dm[a] - dq.get(a, 0)))
        c = _n(Fraction(r[lm]) / cq)
        out[m] = c
        for m2, c2 in q.t.items():
            mm = mmul(m, m2)
            s = r.get(mm, 0) - c * c2
            if s:
                r[mm] = _n(s) if isinstance(s, Fraction) else s
            else:
                r.pop(mm, None)
    return Poly(out)

class _Ord:
    __slots__ = ("d", "k")
def _mono_order(m):
    # graded, ties by a lex order on atom ids (smaller id larger variable)
    mx = 0
    return (sum(e for _, e in m), _LexKey(m))
class _LexKey:
    __slots__ = ("m",)
    def __init__(self, m):
        self.m = m
    def __lt__(self, o):
        a, b = self.m, o.m
        i = 0
        while True:
            if i >= len(a):
                return i < len(b)
            if i >= len(b):
                return False
            (x, e), (y, f) = a[i], b[i]
            if x != y:
                return x > y      # a lacks the smaller atom -> a smaller
            if e != f:
                return e < f
            i += 1
    def __eq__(self, o):
        return self.m == o.m
def _lead(p):
    return max(p.t, key=_mono_order)

def psqrt_exact(p):
    "polynomial square root (non-negative exponents) or None"
    if not p.t:
        return P0
    lm = _lead(p)
    lc = Fraction(p.t[lm])
    if lc < 0 or any(e % 2 for _, e in lm):
        return None
    rn, rd = math.isqrt(lc.numerator), math.isqrt(lc.denominator)
    if rn * rn != lc.numerator or rd * rd != lc.denominator:
        return None
    r = Poly({tuple((a, e // 2) for a, e in lm): _n(Fraction(rn, rd))})
    lr, lrc = next(iter(r.t.items()))
    rem = psub(p, pmul(r, r))
    for _ in range(40):
        if not rem.t:
            return r
        m = _lead(rem)
        dm, dl = dict(m), dict(lr)
        d = {a: dm.get(a, 0) - dl.get(a, 0) for a in set(dm) | set(dl)}
        if any(e < 0 for e in d.values()):
            return None
        t = Poly({tuple(sorted((a, e) for a, e in d.items() if e)): _n(Fraction(rem.t[m]) / (2 * lrc))})
        rem = psub(rem, padd(pscale(pmul(r, t), 2), pmul(t, t)))
        r = padd(r, t)
    return None

# ---------------------------------------------------------------- symbolic booleans
class SymBool:
    """op in cmp (poly rel 0), not, and, or"""
    __slots__ = ("op", "a", "b", "_key", "_atoms")
    __array_priority__ = 1000
    def __init__(self, op, a, b=None):
        self.op, self.a, self.b, self._key, self._atoms = op, a, b, None, None
    def key(self):
        if self._key is None:
            if self.op == "cmp":
                self._key = ("cmp", self.a.key(), self.b)
            elif self.op == "not":
                self._key = ("not", self.a.key())
            else:
                self._key = (self.op,) + tuple(sorted((x.key() for x in self.a), key=repr))
        return self._key
    def atoms(self):
        "direct atoms"
        if self._atoms is None:
            if self.op == "cmp":
                self._atoms = frozenset(self.a.atoms())
            elif self.op == "not":
                self._atoms = self.a.atoms()
            else:
                self._atoms = frozenset().union(*[x.atoms() for x in self.a])
        return self._atoms
    def __bool__(self):
        return decide(self)
    def __and__(self, o): return sand(self, o)
    def __rand__(self, o): return sand(o, self)
    def __or__(self, o): return sor(self, o)
    def __ror__(self, o): return sor(o, self)
    def __xor__(self, o): return sor(sand(self, snot(o)), sand(snot(self), o))
    __rxor__ = __xor__
    def __invert__(self): return snot(self)
    def __eq__(self, o):
        if isinstance(o, (bool, _np.bool_)):
            return self if o else snot(self)
        if isinstance(o, SymBool):
            return sor(sand(self, o), sand(snot(self), snot(o)))
        if isinstance(o, (int, float, Sym)):
            return Sym._c(int(bool(self))) == o if isinstance(o, Sym) else int(bool(self)) == o
        return False
    def __ne__(self, o): return snot(self == o)
    __hash__ = None
    def _num(self): return int(bool(self))
    def __add__(self, o): return self._num() + o
    __radd__ = __add__
    def __sub__(self, o): return self._num() - o
    def __rsub__(self, o): return o - self._num()
    def __mul__(self, o): return self._num() * o
    __rmul__ = __mul__
    def __int__(self): return self._num()
    def __index__(self): return self._num()
    def __float__(self): return float(self._num())
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self
    def __repr__(self): return "<SymBool %s>" % sb_str(self)
    def all(self, *a, **k): return self
    def any(self, *a, **k): return self
    def item(self): return self

def _asb(x):
    if isinstance(x, SymBool): return x
    if isinstance(x, Sym): return x != 0
    return bool(x)
def snot(x):
    x = _asb(x)
    if x is True or x is False: return not x
    if x.op == "not": return x.a
    if x.op == "cmp":
        if x.b == "<": return mkcmp(pneg(x.a), "<=")
        if x.b == "<=": return mkcmp(pneg(x.a), "<")
        if x.b == "==": return mkcmp(x.a, "!=")
        if x.b == "!=": return mkcmp(x.a, "==")
    return SymBool("not", x)
def sand(*xs):
    out = []
    for x in xs:
        x = _asb(x)
        if x is False: return False
        if x is True: continue
        if x.op == "and": out.extend(x.a)
        else: out.append(x)
    if not out: return True
    if len(out) == 1: return out[0]
    return SymBool("and", tuple(out))
def sor(*xs):
    out = []
    for x in xs:
        x = _asb(x)
        if x is True: return True
        if x is False: continue
        if x.op == "or": out.extend(x.a)
        else: out.append(x)
    if not out: return False
    if len(out) == 1: return out[0]
    return SymBool("or", tuple(out))

_REL = {"<": lambda v: v < 0, "<=": lambda v: v <= 0, "==": lambda v: v == 0, "!=": lambda v: v != 0}
def mkcmp(p, rel):
    if p.is_const():
        return _REL[rel](p.const())
    # syntactic sign knowledge on single monomials
    if len(p.t) == 1:
        (m, c), = p.t.items()
        s = mono_sign(m)
        if s == 1:
            return _REL[rel](1 if c > 0 else -1)
    if rel in ("==", "!="):
        k = max(p.t)        # normalise the leading coefficient
        c = p.t[k]
        if c != 1:
            p = pscale(p, Fraction(1) / Fraction(c))
    return SymBool("cmp", p, rel)

def atom_sign(a):
    "1 positive, 0 nonnegative, None unknown"
    if a.pos: return 1
    if a.kind in ("real", "int") and a.lo is not None:
        if a.lo > 0 or a.pos: return 1
        if a.lo == 0: return 0
    if a.kind == "sqrt":
        return 1 if a.id in CTX_nonzero() else 0
    return None
def CTX_nonzero():
    return CTX.cnt.setdefault("nonzero", set())
def mono_sign(m):
    s = 1
    for a, e in m:
        if e % 2 == 0 and (e < 0 or a in CTX_nonzero()):
            continue
        k = atom_sign(CTX.atoms[a])
        if k == 1:
            continue
        if k == 0 and e < 0:
            continue
        return None
    return s

def sb_eval(b, A, tol=1e-9):
    "True/False/None(ambiguous) under a numeric assignment"
    if b is True or b is False: return b
    if b.op == "cmp":
        v = peval(b.a, A)
        if v != v: return None
        mg = pmag(b.a, A)
        ints = all(CTX.atoms[a].kind == "int" for a in b.a.atoms())
        t = 0.25 if False else (0 if ints else tol * (1e-3 + mg))
        if ints:
            return _REL[b.b](v)
        if abs(v) <= t:
            x = peval_exact(b.a, A)
            return None if x is None else _REL[b.b](x)
        return _REL[b.b](v)
    if b.op == "not":
        x = sb_eval(b.a, A, tol)
        return None if x is None else not x
    vs = [sb_eval(x, A, tol) for x in b.a]
    if b.op == "and":
        if any(v is False for v in vs): return False
        return None if any(v is None for v in vs) else True
    if any(v is True for v in vs): return True
    return None if any(v is None for v in vs) else False

def sb_str(b, depth=0):
    if b is True or b is False: return str(b)
    if b.op == "cmp": return "%s %s 0" % (pstr(b.a), b.b)
    if b.op == "not": return "not(%s)" % sb_str(b.a)
    return "(" + (" %s " % b.op).join(sb_str(x) for x in b.a) + ")"
def pstr(p, n=12):
    out = []
    for i, (m, c) in enumerate(sorted(p.t.items())):
        if i >= n:
            out.append("...(%d terms)" % len(p.t)); break
        out.append(str(c) + "".join("*%s%s" % (CTX.atoms[a].name, "" if e == 1 else "^%d" % e) for a, e in m))
    return " + ".join(out) or "0"

# ---------------------------------------------------------------- z3 encoding
def zcoef(c):
    if isinstance(c, Fraction):
        return z3.Q(c.numerator, c.denominator)
    return z3.RealVal(c)
def z_poly(p):
    c = CTX
    ints = all(c.atoms[a].kind in ("int", "trunc", "round", "floor") for a in p.atoms()) and \
        all(not isinstance(k, Fraction) for k in p.t.values())
    terms = []
    for m, k in p.t.items():
        fs = []
        for a, e in m:
            z = c.atoms[a].z
            if z.is_int() and not ints:
                z = z3.ToReal(z)
            fs.extend([z] * e)
        co = z3.IntVal(k) if ints else zcoef(k)
        if not fs:
            terms.append(co)
        elif k == 1:
            terms.append(z3.Product(fs) if len(fs) > 1 else fs[0])
        else:
            terms.append(z3.Product([co] + fs))
    if not terms:
        return (z3.IntVal(0) if ints else z3.RealVal(0)), ints
    return (z3.Sum(terms) if len(terms) > 1 else terms[0]), ints
def z_bool(b):
    if b is True or b is False: return z3.BoolVal(b)
    c = CTX
    k = b.key()
    r = c.zmemo.get(k)
    if r is not None:
        return r
    if b.op == "cmp":
        p = b.a
        # clear negative exponents preserving the sign
        mn = {}
        for m in p.t:
            for a, e in m:
                if e < 0 and -e > mn.get(a, 0): mn[a] = -e
        if mn:
            mono = []
            for a, e in mn.items():
                s = atom_sign(c.atoms[a])
                if s is None and e % 2 and b.b in ("<", "<="): e += 1
                mono.append((a, e))
            mono = tuple(sorted(mono))
            p = Poly({mmul(m, mono): v for m, v in p.t.items()})
        z, ints = z_poly(p)
        zero = z3.IntVal(0) if ints else z3.RealVal(0)
        r = {"<": z < zero, "<=": z <= zero, "==": z == zero, "!=": z != zero}[b.b]
    elif b.op == "not":
        r = z3.Not(z_bool(b.a))
    elif b.op == "and":
        r = z3.And([z_bool(x) for x in b.a])
    else:
        r = z3.Or([z_bool(x) for x in b.a])
    c.zmemo[k] = r
    return r
def z_def(a):
    "defining constraints of an atom"
    c = CTX
    k = ("def", a.id)
    r = c.zmemo.get(k)
    if r is not None:
        return r
    out = []
    if a.kind in ("real", "int"):
        mk = (lambda v: z3.IntVal(int(v))) if a.kind == "int" else (lambda v: zcoef(Fraction(v)))
        if a.lo is not None: out.append(a.z >= mk(a.lo))
        if a.hi is not None: out.append(a.z <= mk(a.hi))
        if a.pos: out.append(a.z > 0)
    elif a.kind == "sqrt":
        out.append(a.z >= 0)
        p, mono = clear_neg(a.arg)
        zp, i = z_poly(p)
        lhs = [a.z, a.z] + [c.atoms[x].z for x, e in mono for _ in range(e)]
        out.append(z3.Product(lhs) == zp)
    elif a.kind == "den":
        p, mono = clear_neg(a.arg)
        zp, i = z_poly(p)
        lhs = [a.z] + [c.atoms[x].z for x, e in mono for _ in range(e)]
        out.append((z3.Product(lhs) if len(lhs) > 1 else lhs[0]) == zp)
        out.append(a.z != 0)
    for x in a.cons:
        out.append(z_bool(x))
    c.zmemo[k] = out
    return out

def _closure(ids):
    "atoms reachable through definitions"
    c = CTX
    seen, st = set(), list(ids)
    while st:
        i = st.pop()
        if i in seen: continue
        seen.add(i)
        a = c.atoms[i]
        if a.arg is not None: st.extend(a.arg.atoms())
        for x in a.cons: st.extend(x.atoms())
    return seen

def slice_pc(conds):
    """constraints of the path connected to conds by shared atoms"""
    c = CTX
    ids = set()
    for x in conds: ids |= _closure(x.atoms())
    todo = [(b, _closure(b.atoms())) for b in c.pc]
    out = []
    ch = True
    while ch:
        ch = False
        rest = []
        for b, s in todo:
            if s & ids:
                out.append(b); ids |= s; ch = True
            else:
                rest.append((b, s))
        todo = rest
    return out, ids

def solve(conds, timeout=None, pin=None, nice=False, hard=False):
    """sat/unsat/unknown of (path condition slice and conds); returns (res, values)"""
    c = CTX
    conds = [x for x in conds if x is not True]
    if any(x is False for x in conds): return "unsat", None
    pcs, ids = slice_pc(conds)
    key = (frozenset(repr(b.key()) for b in pcs), tuple(sorted(repr(x.key()) for x in conds)),
           frozenset(pin.items()) if pin else None, nice, hard)
    key = hash(key), len(pcs)
    if key in c.memo:
        c.st["memo_hits"] += 1
        return c.memo[key]
    allint = all(c.atoms[i].kind in ("int",) for i in ids)
    anyint = any(c.atoms[i].z.is_int() for i in ids)
    t0 = time.time()
    order = ["QF_NRA", None] if not anyint else [None]
    if allint: order = [None]
    if hard: order = [None, "QF_NRA", "nlsat"] if not anyint else [None, "QF_NIRA"]
    r = z3.unknown
    for lg in order:
        s = z3.Then("simplify", "purify-arith", "elim-term-ite", "qfnra-nlsat").solver() if lg == "nlsat" else z3.SolverFor(lg) if lg else z3.Solver()
        s.set("timeout", int(timeout or c.timeout))
        for i in ids:
            for d in z_def(c.atoms[i]): s.add(d)
        for b in pcs: s.add(z_bool(b))
        for b in conds: s.add(z_bool(b))
        if nice:
            for i in ids:
                a = c.atoms[i]
                if a.kind == "real":
                    s.add(a.z <= 8, a.z >= -8)
                    if a.lo is None or a.lo < 0: s.add(z3.Or(a.z >= z3.Q(1, 8), a.z <= z3.Q(-1, 8)))
                    elif a.pos or a.lo == 0: s.add(a.z >= z3.Q(1, 8))
        if pin:
            for i, v in pin.items():
                a = c.atoms[i]
                if i in ids:
                    s.add(a.z == (z3.IntVal(int(v)) if a.kind == "int" else zcoef(Fraction(v))))
        r = s.check()
        c.st["queries"] += 1
        if r != z3.unknown: break
    c.st["solver_s"] += time.time() - t0
    c.st[str(r)] += 1
    vals = None
    if r == z3.sat:
        m = s.model()
        vals = {}
        for i in ids:
            a = c.atoms[i]
            if a.kind in ("real", "int"):
                v = m.eval(a.z, model_completion=True)
                vals[i] = zval(v)
    res = (str(r), vals)
    c.memo[key] = res
    return res

def zval(v):
    if z3.is_int_value(v): return v.as_long()
    if z3.is_rational_value(v):
        f = Fraction(v.numerator_as_long(), v.denominator_as_long())
        return f
    if z3.is_algebraic_value(v):
        a = v.approx(25)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return Fraction(0)

# ---------------------------------------------------------------- branching
def _add_pc(b, filt=True):
    c = CTX
    if b is True: return
    k = b.key()
    if k in c.pckeys: return
    c.pckeys[k] = True
    c.pckeys[_k(snot(b))] = False
    c.pc.append(b)
    if b.op == "and":
        for x in b.a:
            c.pckeys[_k(x)] = True
            c.pckeys[_k(snot(x))] = False
            _note_nonzero(x)
    _note_nonzero(b)
    if filt:
        keep = []
        for A in c.models:
            if sb_eval(b, A) is True: keep.append(A)
        c.models = keep
def _k(x):
    return x if isinstance(x, bool) else x.key()
def _note_nonzero(b):
    if b.op == "cmp" and len(b.a.t) == 1:
        (m, k), = b.a.t.items()
        if b.b in ("!=", "<"):
            for a, e in m: CTX_nonzero().add(a)

def _model_from(vals, extra=()):
    c = CTX
    base = c.models[0] if c.models else None
    v = dict(base.v) if base else {}
    v.update(vals)
    A = Assign(c, "z%d" % c.counter("zmodel"), v)
    for b in list(c.pc) + list(extra):
        if sb_eval(b, A) is not True: return None
    return A

def decide(b):
    c = CTX
    if b is True or b is False: return b
    if c.stop: raise c.stop
    k = b.key()
    if k in c.pckeys: return c.pckeys[k]
    c.st["decisions"] += 1
    if len(c.trace) > 20000: c.raise_stop(BoundExceeded("more than 20000 decisions on one path"))
    fp = hash(k) & 0xffffff
    if c.pos < len(c.prefix):
        if c.prefix[c.pos][0] != fp: c.raise_stop(Unsupported("exploration out of step"))
        v = c.prefix[c.pos][1]
        c.pos += 1
        c.trace.append((fp, v))
        _add_pc(b if v else snot(b))
        return v
    nb = snot(b)
    ft = ff = None
    new = []
    for A in c.models:
        e = sb_eval(b, A)
        if e is True: ft = True
        elif e is False: ff = True
    if ft and ff: c.st["witness_hits"] += 1
    if ft is None:
        r, vals = solve([b])
        ft = r != "unsat"
        if r == "sat":
            A = _model_from(vals, [b]); 
            if A: new.append((True, A))
    if ff is None:
        r, vals = solve([nb])
        ff = r != "unsat"
        if r == "sat":
            A = _model_from(vals, [nb])
            if A: new.append((False, A))
    if not ft and not ff: c.raise_stop(PathAbort("infeasible"))
    v = bool(ft)
    if ft and ff:
        c.st["forks"] += 1
        c.alts.append(list(c.trace) + [(fp, False)])
    c.trace.append((fp, v))
    c.pos += 1
    _add_pc(b if v else nb)
    for w, A in new:
        if w == v: c.models.append(A)
    return v

def assume(b):
    c = CTX
    b = _asb(b)
    if b is True: return
    if b is False: c.raise_stop(PathAbort("assumption false"))
    if b.key() in c.pckeys:
        if c.pckeys[b.key()]: return
        c.raise_stop(PathAbort("assumption false"))
    _add_pc(b)
    if not c.models:
        r, vals = solve([b]) if False else solve([SymBool("and", (b, b))])
        if r == "unsat": c.raise_stop(PathAbort("assumption infeasible"))
        if r == "sat":
            A = _model_from(vals)
            if A: c.models.append(A)

# ---------------------------------------------------------------- scalars
def _frac(x):
    if isinstance(x, (bool, _np.bool_)): return int(x)
    if isinstance(x, (int, _np.integer)): return int(x)
    if isinstance(x, Fraction): return _n(x)
    f = Fraction(float(x))
    return _n(f)
_NUM = (int, float, _np.integer, _np.floating, Fraction, _np.bool_)

class Sym:
    __slots__ = ("p", "k", "nn")
    __array_priority__ = 1000
    def __init__(self, p, k="f", nn=False):
        self.p, self.k, self.nn = p, k, nn
    @staticmethod
    def _c(x):
        return Sym(pconst(_frac(x)), "i" if isinstance(x, (int, _np.integer)) else "f")
    def __array_ufunc__(self, uf, method, *inputs, **kw):
        from . import arr
        return arr.ufunc_handler(uf, method, inputs, kw)
    # --- arithmetic
    def __add__(self, o): return s_add(self, o)
    def __radd__(self, o): return s_add(o, self)
    def __sub__(self, o): return s_sub(self, o)
    def __rsub__(self, o): return s_sub(o, self)
    def __mul__(self, o): return s_mul(self, o)
    def __rmul__(self, o): return s_mul(o, self)
    def __truediv__(self, o): return s_div(self, o)
    def __rtruediv__(self, o): return s_div(o, self)
    def __floordiv__(self, o): return s_floordiv(self, o)
    def __rfloordiv__(self, o): return s_floordiv(o, self)
    def __mod__(self, o): return s_mod(self, o)
    def __rmod__(self, o): return s_mod(o, self)
    def __divmod__(self, o): return s_floordiv(self, o), s_mod(self, o)
    def __pow__(self, o): return s_pow(self, o)
    def __rpow__(self, o): return s_pow(o, self)
    def __neg__(self): return fold(Sym(pneg(self.p), self.k))
    def __pos__(self): return self
    def __abs__(self): return s_abs(self)
    # --- comparison
    def __lt__(self, o): return s_cmp(self, o, "<")
    def __le__(self, o): return s_cmp(self, o, "<=")
    def __gt__(self, o): return s_cmp(o, self, "<")
    def __ge__(self, o): return s_cmp(o, self, "<=")
    def __eq__(self, o): return s_cmp(self, o, "==")
    def __ne__(self, o): return s_cmp(self, o, "!=")
    def __hash__(self): return 0
    def __bool__(self): return decide(_asb(s_cmp(self, 0, "!=")))
    # --- conversions
    def __float__(self): raise_unsup("float() of a symbolic value in C code")
    def __int__(self): return concretise(s_trunc(self))
    def __index__(self):
        if self.k != "i": raise TypeError("'float' object cannot be interpreted as an integer")
        return concretise(self)
    def __trunc__(self): return s_trunc(self)
    def __round__(self, n=None): return s_round(self, n)
    def __floor__(self): return s_floor(self)
    def __ceil__(self): return -s_floor(-self)
    def __format__(self, spec): return fmt_token(self, spec)
    def __repr__(self): return "<%s %s>" % (self.k, pstr(self.p))
    def __str__(self): return SStr(fmt_token(self, ""))
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self
    # --- numpy scalar look-alike
    def sqrt(self): return s_sqrt(self)
    def copy(self): return self
    def item(self): return self
    def conjugate(self): return self
    def is_integer(self): return self.k == "i" or decide(_asb(s_cmp(self, s_floor(self), "==")))
    def sum(self, *a, **k): return self
    def any(self, *a, **k): return self != 0
    def all(self, *a, **k): return self != 0
    def max(self, *a, **k): return self
    def min(self, *a, **k): return self
    def flatten(self):
        from . import arr
        return arr.asarr([self])
    ravel = flatten
    def reshape(self, *s):
        return self.flatten().reshape(*s)
    def astype(self, t):
        from . import arr
        return arr.fit(arr.coerce(self, arr.dtkind(t)), arr.width(t))
    def round(self, n=0): return s_round(self, n, "f")
    @property
    def T(self): return self
    @property
    def real(self): return self
    @property
    def imag(self): return 0
    @property
    def shape(self): return ()
    @property
    def ndim(self): return 0
    @property
    def size(self): return 1
    @property
    def dtype(self): return _np.dtype(float if self.k == "f" else int)

TOKENS = {}
def fmt_token(s, spec):
    if spec[-1:] in ("d", "x", "o", "b", "c", "X") and s.k != "i": raise ValueError("Unknown format code %r for object of type 'float'" % spec[-1])
    if spec[-1:] == "s": raise ValueError("Unknown format code 's' for object of type 'float'")
    t = "\x01%d:%s\x02" % (len(TOKENS), spec)
    TOKENS[t] = (s, spec)
    return t

import re as _re
_TOK = _re.compile("\x01[0-9]+:[^\x02]*\x02")
class SStr(str):
    """string that may contain formatted symbolic integers; ordering compares
    the strings those numbers print as"""
    __slots__ = ()
    def parts(self):
        out, p = [], 0
        for m in _TOK.finditer(self):
            out.extend(self[p:m.start()] if not isinstance(self, SStr) else str.__getitem__(self, slice(p, m.start())))
            out.append(TOKENS[m.group(0)])
            p = m.end()
        out.extend(str.__getitem__(self, slice(p, None)))
        return out
    def zfill(self, w):
        m = _TOK.fullmatch(self)
        if m and TOKENS[m.group(0)][1] == "": return SStr(fmt_token(TOKENS[m.group(0)][0], "0%dd" % w))
        return str.zfill(self, w)
    def rjust(self, w, c=" "):
        if c == "0": return self.zfill(w)
        return str.rjust(self, w, c)
    def __lt__(self, o): return _strcmp(self, SStr(o)) < 0
    def __gt__(self, o): return _strcmp(self, SStr(o)) > 0
    def __le__(self, o): return _strcmp(self, SStr(o)) <= 0
    def __ge__(self, o): return _strcmp(self, SStr(o)) >= 0
    __hash__ = str.__hash__
    def __eq__(self, o): return str.__eq__(self, o)
    def __ne__(self, o): return str.__ne__(self, o)
    # parts of such a string are such strings
    def __add__(self, o): return SStr(str.__add__(self, o)) if isinstance(o, str) else NotImplemented
    def __radd__(self, o): return SStr(str.__add__(o, self)) if isinstance(o, str) else NotImplemented
    def __getitem__(self, i):
        # positions count whole numbers: only cuts beside them are well defined
        r = str.__getitem__(self, i)
        if r.count("\x01") != r.count("\x02") or (("\x01" in self) and isinstance(i, int) and r in "0123456789:\x01\x02"): raise_unsup("part of a formatted symbolic number")
        return SStr(r)
    def __iter__(self):
        if "\x01" in str(self): raise_unsup("characters of a formatted symbolic number")
        return str.__iter__(self)
    def join(self, it): return SStr(str.join(self, it))
    def split(self, *a, **k): return [SStr(x) for x in str.split(self, *a, **k)]
    def rsplit(self, *a, **k): return [SStr(x) for x in str.rsplit(self, *a, **k)]
    def partition(self, x): return tuple(SStr(y) for y in str.partition(self, x))
    def rpartition(self, x): return tuple(SStr(y) for y in str.rpartition(self, x))
    def replace(self, *a): return SStr(str.replace(self, *a))
    def strip(self, *a): return SStr(str.strip(self, *a))
    def removeprefix(self, x): return SStr(str.removeprefix(self, x))
    def removesuffix(self, x): return SStr(str.removesuffix(self, x))
def _digits(tok):
    "(number, printed width) of a formatted symbolic non-negative integer (forks on its size)"
    s, spec = tok
    m = _re.fullmatch(r"0?(\d*)d?", spec)
    if not m or (spec and spec[0] != "0" and m.group(1)): raise_unsup("format %r in a file name" % spec)
    if not isinstance(s, Sym): return s, len(format(s, spec))
    if s.k != "i": raise_unsup("real number in a file name")
    w = int(m.group(1) or 0)
    n = 1
    while n < 12 and not bool(s < 10 ** n): n += 1
    return s, max(n, w)
def _strcmp(a, b):
    pa, pb = a.parts(), b.parts()
    i = 0
    while True:
        if i >= len(pa) or i >= len(pb): return (len(pa) > i) - (len(pb) > i)
        x, y = pa[i], pb[i]
        if isinstance(x, tuple) and isinstance(y, tuple):
            (n1, w1), (n2, w2) = _digits(x), _digits(y)
            if w1 == w2:
                if bool(n1 < n2): return -1
                if bool(n2 < n1): return 1
                i += 1
                continue
            sg = 1
            if w1 > w2: n1, w1, n2, w2, sg, pa, pb = n2, w2, n1, w1, -1, pb, pa
            q = s_floordiv(n2, 10 ** (w2 - w1))
            if bool(n1 < q): return -sg
            if bool(q < n1): return sg
            # the shorter one continues with its next character, the longer one with a digit
            if i + 1 >= len(pa): return -sg
            nx = pa[i + 1]
            if isinstance(nx, tuple): raise_unsup("adjacent numbers in a file name")
            if nx < "0": return -sg
            if nx > "9": return sg
            raise_unsup("digit after a number in a file name")
        if isinstance(x, tuple) or isinstance(y, tuple):
            c = y if isinstance(x, tuple) else x
            sg = 1 if isinstance(x, tuple) else -1
            if c < "0": return sg
            if c > "9": return -sg
            raise_unsup("file name with a number against a literal digit")
        if x != y: return -1 if x < y else 1
        i += 1

def raise_unsup(msg):
    CTX.raise_stop(Unsupported(msg))

def fold(s):
    if s.p.is_const():
        c = s.p.const()
        if s.k == "i" and not isinstance(c, Fraction): return int(c)
        if s.k == "f":
            f = float(c)
            if Fraction(f) == c: return _np.float64(f)
    return s
def lift(x):
    if isinstance(x, Sym): return x
    if isinstance(x, SymBool): return Sym._c(x._num())
    if isinstance(x, _NUM): return Sym._c(x)
    return None
def _bad(x):
    return isinstance(x, (float, _np.floating)) and not math.isfinite(x)
def _other(o):
    return not (isinstance(o, (Sym, SymBool) + _NUM))
def rk(a, b):
    return "i" if a.k == "i" and b.k == "i" else "f"

def s_add(a, b):
    if _other(a) or _other(b): return NotImplemented
    if _bad(a): return a
    if _bad(b): return b
    a, b = lift(a), lift(b)
    nn = (a.nn or (a.p.is_const() and a.p.const() >= 0)) and (b.nn or (b.p.is_const() and b.p.const() >= 0))
    return fold(Sym(padd(a.p, b.p), rk(a, b), nn))
def s_sub(a, b):
    if _other(a) or _other(b): return NotImplemented
    if _bad(a): return a
    if _bad(b): return -b
    a, b = lift(a), lift(b)
    return fold(Sym(psub(a.p, b.p), rk(a, b)))
def s_mul(a, b):
    if _other(a) or _other(b): return NotImplemented
    if _bad(a) or _bad(b):
        w, s = (a, b) if _bad(a) else (b, a)
        if isinstance(s, _NUM): return w * float(s)
        if w != w: return _np.float64("nan")
        if s > 0: return w
        if s < 0: return -w
        return _np.float64("nan")
    a, b = lift(a), lift(b)
    nn = (a.p.key() == b.p.key()) or (a.nn and b.nn) or (a.nn and b.p.is_const() and b.p.const() >= 0) \
        or (b.nn and a.p.is_const() and a.p.const() >= 0)
    return fold(Sym(pmul(a.p, b.p), rk(a, b), nn))
def nonzero(p):
    "decide whether p is non-zero (forks)"
    p = reduce_defs(p)
    if not p.t: return False
    if p.is_const(): return True
    if len(p.t) == 1:
        (m, c), = p.t.items()
        for a, e in m:
            if a in CTX_nonzero() or atom_sign(CTX.atoms[a]) == 1: continue
            if not decide(_asb(mkcmp(patom(CTX.atoms[a]), "!="))): return False
            CTX_nonzero().add(a)
        return True
    return decide(_asb(mkcmp(p, "!=")))
def s_div(a, b):
    if _other(a) or _other(b): return NotImplemented
    if _bad(b):
        return _np.float64("nan") if (b != b or _bad(a)) else _np.float64(0.0)
    if _bad(a): 
        return a if a != a else (a if b > 0 else -a)
    a, b = lift(a), lift(b)
    if b.p.is_const():
        c = b.p.const()
        if c == 0: return _zero_div(a)
        r = Sym(pscale(a.p, Fraction(1) / Fraction(c)), "f", a.nn and c > 0)
        return fold(r)
    q = reduce_exact(b.p)
    if q.is_const():
        return s_div(a, Sym(q, "f"))
    if len(q.t) > 1:
        # common monomial factor
        mono = _content(q)
        q2 = Poly({mmul(m, tuple((x, -e) for x, e in mono)): c for m, c in q.t.items()}) if mono else q
    else:
        mono, q2 = (), q
    if not nonzero(q): return _zero_div(a)
    if len(q.t) == 1:
        # the denominators are recorded as non-zero by nonzero()
        nn = a.nn and mono_sign(next(iter(q.t))) == 1 and next(iter(q.t.values())) > 0
        return fold(Sym(pmul(a.p, ppow(q, -1)), "f", nn))
    d = pdivexact(*_bothclear(a.p, q2)) if len(a.p.t) <= 400 else None
    if d is not None and a.p.t:
        r = d
        r = pmul(r, Poly({_adj(a.p, q2): 1}))
    else:
        lc = q2.t[_lead(q2)]
        q3 = pscale(q2, Fraction(1) / Fraction(lc))
        at = CTX.derived("den", q3)
        CTX_nonzero().add(at.id)
        r = pmul(pscale(a.p, Fraction(1) / Fraction(lc)), Poly({((at.id, -1),): 1}))
    if mono:
        r = pmul(r, Poly({tuple((x, -e) for x, e in mono): 1}))
    return fold(Sym(r, "f"))
def _content(q):
    it = iter(q.t)
    d = dict(next(it))
    for m in it:
        e = dict(m)
        d = {a: min(x, e.get(a, 0)) if (x > 0 or e.get(a, 0) > 0) else max(x, e.get(a, 0)) for a, x in d.items()
             if a in e and (x > 0) == (e[a] > 0)}
        if not d: break
    # also negative powers present in all terms
    return tuple(sorted((a, x) for a, x in d.items() if x))
def _bothclear(p, q):
    return clear_neg(p)[0], clear_neg(q)[0]
def _adj(p, q):
    # p = P/mp, q = Q/mq, p/q = (P/Q) * mq/mp
    mp, mq = clear_neg(p)[1], clear_neg(q)[1]
    return mmul(mq, tuple((a, -e) for a, e in mp))
def _zero_div(a):
    if isinstance(a, Sym):
        if a.p.is_const() and a.p.const() == 0: return _np.float64("nan")
        if s_cmp(a, 0, "==") is True: return _np.float64("nan")
        if decide(_asb(s_cmp(a, 0, "=="))): return _np.float64("nan")
        return _np.float64("inf") if decide(_asb(s_cmp(0, a, "<"))) else _np.float64("-inf")
    return _np.float64("nan")
def s_floor(a):
    if not isinstance(a, Sym): return math.floor(a)
    if a.k == "i": return a
    at = CTX.derived("floor", a.p)
    if not at.cons:
        t = Sym(patom(at), "i")
        at.cons = [_asb(Sym(patom(at)) <= Sym(a.p)), _asb(Sym(a.p) < Sym(patom(at)) + 1)]
    return Sym(patom(at), "i")
def s_trunc(a):
    if not isinstance(a, Sym): return int(a)
    if a.k == "i": return a
    if a >= 0: return s_floor(a)
    return -s_floor(-a)
def s_round(a, n=None, kind=None):
    if not isinstance(a, Sym): return round(a, n)
    if a.k == "i" and (n is None or n >= 0): return a
    nn = n or 0
    sc = Fraction(10) ** nn
    p = pscale(a.p, sc)
    at = CTX.derived("round", p)
    if not at.cons:
        d = Sym(p) - Sym(patom(at))
        at.cons = [_asb(s_cmp(d, Fraction(1, 2), "<=")), _asb(s_cmp(Fraction(-1, 2), d, "<="))]
    if n is None and kind is None: return Sym(patom(at), "i")
    return Sym(pscale(patom(at), 1 / sc), "f")
def s_f32(a):
    if not isinstance(a, Sym): return _np.float64(_np.float32(a))
    at = CTX.derived("f32", a.p)
    if not at.cons:
        d = Sym(patom(at)) - a
        at.cons = [mkcmp(psub(pmul(d.p, d.p), pscale(pmul(a.p, a.p), Fraction(1, 2**48))), "<=")]
    return Sym(patom(at), "f")
def s_floordiv(a, b):
    if _other(a) or _other(b): return NotImplemented
    a_, b_ = lift(a), lift(b)
    q = s_div(Sym(a_.p, "f"), Sym(b_.p, "f"))
    r = s_floor(q)
    return r if rk(a_, b_) == "i" else (Sym(r.p, "f") if isinstance(r, Sym) else _np.float64(r))
def s_mod(a, b):
    if _other(a) or _other(b): return NotImplemented
    return a - s_floordiv(a, b) * b
def s_pow(a, b):
    if _other(a) or _other(b): return NotImplemented
    if isinstance(b, Sym):
        if b.p.is_const(): b = b.p.const()
        else: raise_unsup("symbolic exponent")
    if not isinstance(a, Sym): a = lift(a)
    e = Fraction(float(b)) if not isinstance(b, Fraction) else b
    isint = isinstance(b, (int, _np.integer))
    if e.denominator == 1:
        n = int(e)
        if n == 0: return 1 if (a.k == "i" and isint) else _np.float64(1.0)
        if n > 0:
            if n > 64: raise_unsup("large power")
            return fold(Sym(ppow(a.p, n), "i" if a.k == "i" and isint else "f", n % 2 == 0 or a.nn))
        return s_div(1, s_pow(a, -n))
    if e.denominator == 2:
        r = s_sqrt(a)
        return s_pow(r, int(e.numerator)) if e.numerator != 1 else r
    raise_unsup("fractional power")
def s_abs(a):
    if not isinstance(a, Sym): return abs(a)
    if a.nn: return a
    if a < 0: return -a
    return a
def s_sign(a):
    if not isinstance(a, Sym): return _np.sign(a)
    one = 1 if a.k == "i" else _np.float64(1.0)
    if a > 0: return one
    if a < 0: return -one
    return one * 0
def s_sqrt(a):
    if not isinstance(a, Sym):
        a = float(a)
        if a < 0: return _np.float64("nan")
        if not math.isfinite(a): return _np.float64(a)
        r = math.sqrt(a)
        return _np.float64(r)
    p = reduce_exact(a.p)
    if p.is_const():
        c = Fraction(p.const())
        if c < 0: return _np.float64("nan")
        rn, rd = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if rn * rn == c.numerator and rd * rd == c.denominator:
            return fold(Sym(pconst(_n(Fraction(rn, rd))), "f"))
    q, mono = clear_neg(p)
    # make the clearing monomial even
    ex = tuple((x, 1) for x, e in mono if e % 2)
    if ex:
        q = Poly({mmul(m, ex): c for m, c in q.t.items()})
        q = _sub_sqrt(q) if all(e >= 0 for m in q.t for _, e in m) else q
        mono = mmul(mono, ex)
    half = tuple((x, -(e // 2)) for x, e in mono)
    # even content out
    if q.t:
        ct = [(x, e - e % 2) for x, e in _content(q) if e - e % 2 > 0]
        if ct:
            q = Poly({mmul(m, tuple((x, -e) for x, e in ct)): c for m, c in q.t.items()})
            half = mmul(half, tuple(sorted((x, e // 2) for x, e in ct)))
    # numeric square content
    r = psqrt_exact(q)
    if r is None:
        if not (a.nn or all(c > 0 for c in q.t.values()) and all(mono_sign(m) == 1 for m in q.t)):
            at = CTX.bykey.get(("sqrt", _numcontent(q)[0].key(), None))
            ok = at is not None and at.id in CTX.cnt.get("sqrtok", ())
            if not ok and not decide(_asb(mkcmp(pneg(q), "<="))):
                return _np.float64("nan")
        q1, sc = _numcontent(q)
        at = CTX.derived("sqrt", q1)
        CTX.cnt.setdefault("sqrtok", set()).add(at.id)
        r = pscale(patom(at), sc)
        rr = Sym(r, "f", True)
    else:
        rr = s_abs(Sym(r, "f")) if r.t else _np.float64(0.0)
    for x, e in half:
        f = Sym(Poly({((x, 1),): 1}), "f")
        f = s_abs(f)
        ff = Sym(ppow(f.p, abs(e)), "f", True)
        rr = rr * ff if e > 0 else s_div(rr, ff)
    return rr
def s_sqrt_sum(vals):
    "sqrt of a sum of squares"
    t = 0
    for v in vals:
        if _bad(v): return np_nan(v)
        t = s_add(t, s_mul(v, v)) if isinstance(v, Sym) or isinstance(t, Sym) else t + v * v
    if isinstance(t, Sym): t = Sym(t.p, "f", True)
    return s_sqrt(t)
def np_nan(v): return _np.float64("nan") if v != v else _np.float64("inf")
def _numcontent(q):
    "square rational content: q = sc^2 * q1"
    num = den = None
    for c in q.t.values():
        c = Fraction(c)
        num = c.numerator if num is None else math.gcd(num, c.numerator)
        den = c.denominator if den is None else den * c.denominator // math.gcd(den, c.denominator)
    num = abs(num)
    def sq(n):
        r, i = 1, 2
        if n > 10**12:
            s = math.isqrt(n)
            return s if s * s == n else 1
        while i * i <= n and i < 10000:
            while n % (i * i) == 0:
                n //= i * i; r *= i
            i += 1
        return r
    sc = Fraction(sq(num), 1)
    sd = math.isqrt(den)
    if sd * sd == den: sc = sc / sd
    else: sc = sc / sq(den)
    return pscale(q, 1 / (sc * sc)), sc

def s_cmp(a, b, rel):
    if _other(a) or _other(b):
        if rel == "==": return False if not isinstance(b, _np.ndarray) and not isinstance(a, _np.ndarray) else NotImplemented
        if rel == "!=": return True if not isinstance(b, _np.ndarray) and not isinstance(a, _np.ndarray) else NotImplemented
        return NotImplemented
    if _bad(a) or _bad(b):
        fa = float(a) if _bad(a) else 0.0
        fb = float(b) if _bad(b) else 0.0
        return {"<": fa < fb, "<=": fa <= fb, "==": fa == fb, "!=": fa != fb}[rel]
    a, b = lift(a), lift(b)
    if rel in ("<", "<=") and a.p.is_const() and a.p.const() < 0 and b.nn: return True
    if rel == "<=" and a.p.is_const() and a.p.const() == 0 and b.nn: return True
    if rel == "<" and b.p.is_const() and b.p.const() <= 0 and a.nn: return False
    p = psub(a.p, b.p)
    if rel in ("==", "!="):
        p = reduce_defs(p)
    return mkcmp(p, rel)

def concretise(s):
    """integer value of a symbolic int, forking over its feasible values"""
    if not isinstance(s, Sym): return int(s)
    c = CTX
    if s.p.is_const(): return int(s.p.const())
    for n in range(200):
        if c.stop: raise c.stop
        if c.pos < len(c.prefix):
            # the value asked for must be reproducible: stored next to the decision
            if len(c.prefix[c.pos]) != 3: c.raise_stop(Unsupported("exploration out of step"))
            _, taken, v = c.prefix[c.pos]
            c.pos += 1
            c.trace.append(("c", taken, v))
            e = s == v
            if e is True: return v
            if e is False: continue
            _add_pc(e if taken else snot(e))
            if taken: return v
            continue
        v = None
        for A in c.models:
            x = peval(s.p, A)
            if x == x: v = int(round(x)); break
        if v is None:
            r, vals = solve([SymBool("cmp", s.p, "<="), ]) if False else solve([_asb(sor(s <= 0, s > 0))]) \
                if not isinstance(sor(s <= 0, s > 0), bool) else ("sat", {})
            if r != "sat": c.raise_stop(PathAbort("no value"))
            A = Assign(c, "c", vals)
            v = int(round(peval(s.p, A)))
        e = s == v
        if e is True: return v
        r1, vals = ("sat", None) if any(sb_eval(e, A) is True for A in c.models) else solve([e])
        if r1 == "unsat":
            # not a feasible value: ask for one
            r1, vals = solve([snot(e)])
            if r1 != "sat": c.raise_stop(Unsupported("concretisation failed"))
            v = int(round(peval(s.p, Assign(c, "c", vals))))
            e = s == v
            if e is True: return v
            if solve([e])[0] == "unsat": c.raise_stop(Unsupported("concretisation failed"))
        r2, vals2 = solve([snot(e)])
        if r2 != "unsat":
            c.st["forks"] += 1
            c.alts.append(list(c.trace) + [("c", False, v)])
        c.trace.append(("c", True, v)); c.pos += 1
        _add_pc(e)
        return v
    c.raise_stop(BoundExceeded("integer with more than 200 values"))

# ---------------------------------------------------------------- derivative
def pdiff(p, aid, memo=None):
    "derivative of a polynomial with respect to a base atom"
    memo = {} if memo is None else memo
    out = P0
    for m, c in p.t.items():
        for a, e in m:
            d = adiff(a, aid, memo)
            if not d.t: continue
            rest = mmul(m, ((a, -1),))
            out = padd(out, pmul(Poly({rest: _n(c * e)}), d))
    return out
def adiff(a, aid, memo):
    if a == aid: return pconst(1)
    if a in memo: return memo[a]
    at = CTX.atoms[a]
    if at.kind in ("real", "int"): r = P0
    elif aid not in _closure([a]): r = P0
    elif at.kind == "sqrt":
        r = pmul(pdiff(at.arg, aid, memo), Poly({((a, -1),): Fraction(1, 2)}))
    elif at.kind == "den":
        r = pdiff(at.arg, aid, memo)
    else:
        raise_unsup("derivative of " + at.kind)
    memo[a] = r
    return r
