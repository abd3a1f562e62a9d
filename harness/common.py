"""Pieces shared by the harnesses (both modes)."""
try:
    from symx.explore import Scn
except ImportError:                       # concrete mode: no solver installed there
    class Scn:
        def __init__(self, name, fn, bounds="", covers=(), tier="quick", path_limit=90, timeout_ms=8000, max_paths=0, **params):
            self.name, self.fn, self.params, self.path_limit = name, fn, params, path_limit
from symx.world import Stop, Sink

def new_model(env, hooks=None, log=0, record=False, **kw):
    tp = env.load(hooks, record=record)
    M = tp.Model(log=log, **kw)
    return tp, M

BIG = 10**12

def labels(env, n, lo=1, hi=6, prefix="lab"):
    "n distinct symbolic labels"
    out = [env.int("%s%d" % (prefix, i), lo, hi) for i in range(n)]
    for i in range(n):
        for j in range(i): env.assume(out[i] != out[j])
    return out

def vec(env, name, n=3, **k):
    return [env.real("%s%d" % (name, i), **k) for i in range(n)]

def dot(a, b):
    s = 0
    for x, y in zip(a, b): s = s + x * y
    return s
def sub(a, b): return [x - y for x, y in zip(a, b)]
def add(a, b): return [x + y for x, y in zip(a, b)]
def norm(env, a): return env.sqrt(dot(a, a))

def at_most(env, a, b, strict=False):
    """decision a <= b (a < b). Concrete values that differ by rounding only are no
    basis for a verdict: such replays are dropped."""
    if not env.sym and a != b and abs(a - b) <= 1e-9 * max(abs(a), abs(b)): raise Stop("comparison within rounding")
    return env.truth(a < b) if strict else env.truth(a <= b)

# ---------------------------------------------------------------- models
class El:
    "element: label, end node labels, area, material type, parameters"
    def __init__(self, label, conn, A, mtype, mprop): self.label, self.conn, self.A, self.mtype, self.mprop = label, conn, A, mtype, mprop

def define(M, nodes, elems, bounds, forces):
    """nodes: [(label, (x,y,z))], elems: [El], bounds: [(label, flags)], forces: [(label, comps)] in definition order"""
    for l, c in nodes: M.Nodes.add_node(l, coord=c)
    for e in elems: M.Elements.add_element(e.label, conn=e.conn, mat_type=e.mtype, mprop=list(e.mprop), gprop=[e.A, 0.625])
    for l, b in bounds: M.Boundaries.add_bound_U(l, b)
    for l, f in forces: M.ExtForces.add_force(l, f)

def with_newton(stub, box=None):
    "hooks that replace the Newton solver by a stub wherever it is imported"
    def hook(m):
        real = m.newton
        def answer(*a, **k):
            f, dfdx, x, nfev, ftol, xtol, verbose, args = handed_to(real, a, k)
            if box is None or not box.get("decoy"): return stub(f, dfdx, x, nfev, ftol, xtol, verbose, *args)
            y = x + 0.125
            f(y, *args); dfdx(y, *args)
            return y, True, 1, 0.0, 0.0
        m.newton = answer
    return {"trusspy.solvers.zerosearch": hook}

def handed_to(real, a, k):
    "what a call hands to the solver, by the solver's own parameters"
    import inspect
    sig = inspect.signature(real)
    b = sig.bind(*a, **k)
    b.apply_defaults()
    v, args, rest = b.arguments, (), []
    for n, p in sig.parameters.items():
        if p.kind is p.VAR_POSITIONAL or n == "args": args = tuple(v[n])
        elif p.kind is not p.VAR_KEYWORD: rest.append(n)
    get = lambda n, i: v[n] if n in v else v[rest[i]]
    return tuple(v[n] for n in rest[:3]) + (get("nfev", 3), get("ftol", 4), get("xtol", 5), get("verbose", 6), args)

def other_first(env, tp, build, box):
    """Another model with the same labels, one node more (which comes first), other coordinates,
    parameters and element order is built and run before the model of interest."""
    D = tp.Model(log=0)
    build(D)
    labs = [D.Nodes.labels[i] for i in range(len(D.Nodes.labels))]
    low = labs[0]
    for l in labs[1:]:
        if env.truth(l < low): low = l
    for i, l in enumerate(labs):
        D.Nodes.del_node(l)
        D.Nodes.add_node(l, coord=(2.0 * i + 1, float(i % 3), 0.5 * i * i))
    D.Nodes.add_node(low - 1, coord=(-7.0, 3.0, 2.0))
    D.Boundaries.add_bound_U(low - 1, (0, 1, 0))
    T = D.Elements
    l, c, mt = T.labels[0], list(T.get_nodes(T.labels[0])), T.get_material_type(T.labels[0])
    n, g = T.material_properties.shape[1], T.geometric_properties.shape[1]
    if len(T.labels) > 1:
        T.del_element(l)
        T.add_element(l, conn=c, mat_type=mt, mprop=[1.0] * n, gprop=[1.0] * g)
    T.add_element(T.labels[0] + 2 * BIG + 5, conn=(low - 1, c[0]), mat_type=mt, mprop=[1.0] * n, gprop=[1.0] * g)
    T.assign_material("all", [16.0, 4.0, 0.25][:n] + [1.0] * (n - 3))
    T.assign_geometry("all", [2.0] * g)
    S = D.Settings
    S.j_pre, S.j_fixed, S.j0, S.stepcontrol, S.du, S.dlpf, S.incs = False, False, None, False, 64.0, 64.0, 1
    box["decoy"] = True
    D.build(); D.run()
    box["decoy"] = False

class Probe(Exception): pass

def probe(env, build, fn, decoy=False, **settings):
    """build(M) defines a model; it is built and run with a Newton solver that hands
    fn(F, J, x, M) the residual and matrix functions; the run ends there."""
    box = {}
    def newton(f, dfdx, x, nfev=8, ftol=1e-8, xtol=1e-8, verbose=0, *args):
        fn(lambda v: f(env.np.array(v), *args), lambda v: dfdx(env.np.array(v), *args), x, box["M"])
        raise Probe()
    tp, M = new_model(env, hooks=with_newton(newton, box))
    if decoy: other_first(env, tp, build, box)
    box["M"] = M
    build(M)
    M.Settings.j_pre = False
    for k, v in settings.items(): setattr(M.Settings, k, v)
    M.build()
    try: M.run()
    except Probe: return M
    raise AssertionError("the run did not call the Newton solver")

def force_of(env, XA, XE, UA, UE, stress_of, A):
    "closed form truss element: stretch, stress, normal force, force on the second node"
    dX, dx = sub(XE, XA), sub(add(XE, UE), add(XA, UA))
    L, l = norm(env, dX), norm(env, dx)
    lam = l / L
    s = stress_of(lam - 1)
    N = s * A
    return lam, s, N, [N * c / l for c in dx]

def positive_lengths(env, XA, XE, UA, UE):
    env.assume(norm(env, sub(XE, XA)) > 0)
    env.assume(norm(env, sub(add(XE, UE), add(XA, UA))) > 0)

def isotropic(env, E, K, sy, ep):
    "reference return mapping: strain -> (stress, new yield stress, new plastic strain)"
    def g(e):
        tr = E * (e - ep)
        if env.truth(env.abs(tr) <= sy): return tr, sy, ep, E
        sg = 1 if env.truth(tr > 0) else -1
        dg = (sg * tr - sy) / (E + K)
        return tr - sg * E * dg, sy + K * dg, ep + sg * dg, E * K / (E + K)
    return g

def off_limit(env, tr, sy):
    """not exactly at the yield limit: the force is not differentiable there (concrete
    runs, which use differences, keep some distance)"""
    if env.sym:
        env.assume(tr != sy); env.assume(tr != -sy)
    elif abs(abs(tr) - sy) < 1e-3 * (1 + abs(tr)): raise Stop("at the yield limit")

def jacobian(env, fun, xs, n):
    """exact derivative (symbolic) or high order central differences (concrete) of
    fun(xs) with respect to xs[0..n-1]; rows: components of fun"""
    if env.sym:
        from symx.core import pdiff, fold, Sym, lift
        F = fun(xs)
        F = [F[i] for i in range(len(F))]
        cols = []
        for x in xs[:n]:
            (m, c), = x.p.t.items()
            aid, memo = m[0][0], {}
            cols.append([fold(Sym(pdiff(lift(v).p, aid, memo), "f")) for v in F])
        return F, [[cols[j][i] for j in range(n)] for i in range(len(F))]
    import numpy as np
    F = np.array(fun(list(xs)), dtype=float)
    J = np.zeros((len(F), n))
    for j in range(n):
        h = 1e-4 * max(1.0, abs(xs[j]))
        d = []
        for k in (1, 2):
            xp, xm = list(xs), list(xs)
            xp[j] += h * k; xm[j] -= h * k
            d.append((np.array(fun(xp), dtype=float) - np.array(fun(xm), dtype=float)) / (2 * k * h))
        if np.abs(d[0] - d[1]).max() > 1e-4 * max(1.0, np.abs(d[0]).max()): raise Stop("differences do not converge: not differentiable here")
        J[:, j] = (4 * d[0] - d[1]) / 3
    return F, [list(r) for r in J]

def eq_jac(env, a, b, msg):
    "equality of derivatives (finite differences in concrete mode: coarser)"
    if env.sym: return env.eq(a, b, msg)
    import numpy as np
    a, b = np.array(a, dtype=float), np.array(b, dtype=float)
    env.check(a.shape == b.shape, msg + ": shapes")
    s = max(1.0, np.abs(b).max())
    i = np.unravel_index(np.argmax(np.abs(a - b)), a.shape)
    env.check(bool(np.abs(a - b).max() <= 2e-5 * s), "%s: entry %s is %r, finite differences give %r" % (msg, i, a[i], b[i]))

def drive(env, build, script, log=0, prep=None, record=False, decoy=False, **settings):
    """Builds and runs a model; the k-th call of the Newton solver is answered by
    script(k, F, J, x, M, call) -> (new point, success, iterations, residual norm, step norm)."""
    box = {"k": 0}
    def newton(f, dfdx, x, nfev=8, ftol=1e-8, xtol=1e-8, verbose=0, *args):
        k = box["k"]; box["k"] += 1
        call = dict(nfev=nfev, ftol=ftol, xtol=xtol, verbose=verbose)
        r = script(k, lambda v: f(env.arr(v), *args), lambda v: dfdx(env.arr(v), *args), x, box["M"], call)
        # as the solver of the code: the residual is evaluated last, and at the point returned
        if r[1]: f(env.arr(r[0]), *args)
        return (env.arr(r[0]),) + tuple(r[1:])
    tp, M = new_model(env, hooks=with_newton(newton, box), log=log, record=record)
    if decoy: other_first(env, tp, build, box)
    box["M"] = M
    build(M)
    for k, v in settings.items(): setattr(M.Settings, k, v)
    M.build()
    if prep: prep(M)
    M.run()
    return M

def printed(env, text):
    "the numbers in a printed text"
    import re
    out = []
    for m in re.finditer("\x01[0-9]+:[^\x02]*\x02|[-+]?(?:nan|inf)|[-+]?[0-9]+(?:[.][0-9]*)?(?:[eE][-+]?[0-9]+)?", text):
        if m.group(0)[0] == "\x01":
            from symx.core import TOKENS
            out.append(TOKENS[m.group(0)][0])
        else: out.append(float(m.group(0)))
    return out

def shows(env, got, want, msg):
    "a printed number is the value up to the printed digits"
    if env.same(got, want): return
    env.le(env.abs(got - want), 6e-5 + 1e-3 * env.abs(want), msg)
