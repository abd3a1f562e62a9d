"""C10: the Newton solver on an arbitrary function: its values and derivative values at
the visited points are free (one value per distinct point)."""
from .common import *

def arb(env, n, nfev, singular=False, default=False, logs=(0,), bystep=False, slow=False, say=False, again=False):
    """again: the functions have been solved before, from the same start point with other arguments"""
    env.load(record=say)
    newton = env.mod("trusspy.solvers").newton
    x0 = vec(env, "x", n)
    ftol, xtol = (1e-8, 1e-8) if default == "tol" else (env.real("ftol", pos=True), env.real("xtol", pos=True))
    extra, pre, pts = (env.real("arg", -4, 4), "token"), "", []        # visited points with their values
    log = env.choice("verbose", list(logs))
    def isnan(v): return not env.is_sym(v) and v != v
    def at(x):
        env.check(len(x) == n, "length of the point handed to the function")
        x = [x[i] for i in range(n)]
        if any(isnan(v) for v in x): return [float("nan")] * n, [[float("nan")] * n for _ in range(n)]
        for p, f, J in pts:
            if env.truth(env.and_(*[a == b if env.sym else abs(a - b) <= 1e-12 * max(1.0, abs(a), abs(b)) for a, b in zip(p, x)])): return f, J
        k = len(pts)
        env.check(k <= nfev, "number of visited points")
        if k > nfev: raise Stop()
        f = [env.real(pre + "f%d_%d" % (k, i)) for i in range(n)]
        J = [[env.real(pre + "J%d_%d%d" % (k, i, j)) for j in range(n)] for i in range(n)]
        if not singular and k < nfev: env.assume(det(J) != 0)
        if bystep and k < nfev:
            d = [env.real(pre + "d%d_%d" % (k, i)) for i in range(n)]
            f = [-dot(J[i], d) for i in range(n)]
            if slow:
                # no point is visited twice and nothing converges before the end
                env.assume(d[0] > 0); env.assume(J[0][0] > 0)
                if k: env.assume(J[0][0] * d[0] > ftol)
                if k + 1 < nfev: env.assume(d[0] > xtol)
        pts.append((x, f, J))
        return f, J
    def f(x, *args):
        env.check(args == extra, "additional arguments of the function")
        return env.arr(at(x)[0])
    def dfdx(x, *args):
        env.check(args == extra, "additional arguments of the derivative")
        return env.arr(at(x)[1])
    if again:
        mine, extra, pre = extra, (env.real("earlier", -4, 4), "other"), "e"
        newton(f, dfdx, env.arr(x0), 1, ftol, xtol, log, *extra)
        extra, pre, pts = mine, "", []
    X = env.arr(x0)
    r = newton(f, dfdx, X, nfev, ftol, xtol, log, *extra)
    env.eq(X, x0, "the start point given by the caller is left as it was")
    # reference
    x, ok, dn, fn_, k, norms = x0, False, None, None, 0, []
    for k in range(1, nfev + 1):
        fv, J = at(x)
        if any(isnan(v) for v in x) or (singular and env.truth(det(J) == 0)):
            dx, x = [float("nan")] * n, [float("nan")] * n
            fn_ = dn = float("nan")
            env.cover("singular"); norms.append(None)
            continue
        dx = solve(J, [-v for v in fv])
        x = add(x, dx)
        fn_, dn = norm(env, at(x)[0]), norm(env, dx)
        norms.append(fn_)
        if at_most(env, fn_, ftol, True) and at_most(env, dn, xtol, True):
            ok = True
            break
    env.cover("converged-%d" % k if ok else "failed")
    if say:
        rows = [printed(env, l) for l in env.world.stdout.text().splitlines() if l.startswith("|")]
        env.check(len(rows) == (len(norms) if log else 0), "%d iterations are shown, %d were made" % (len(rows), len(norms)))
        for i, (v, w) in enumerate(zip(rows, norms)):
            env.check(len(v) >= 2 and v[0] == i + 1, "number of the iteration shown")
            if w is not None and len(v) >= 2: shows(env, v[1], w, "residual norm shown for iteration %d" % (i + 1))
        if log: env.cover("shown")
        return
    env.check(len(r) == 5, "five return values")
    env.check(bool(r[1]) == ok, "success flag is %s although the solution is %swithin both tolerances" % (bool(r[1]), "" if ok else "not "))
    env.eq(r[2], k, "iteration count")
    env.eq(r[0], x, "returned point")
    env.eq(r[3], fn_, "returned residual norm")
    env.eq(r[4], dn, "returned step norm")
    env.observe("r", [r[0], float(bool(r[1])), r[2], r[3], r[4]])

def det(J):
    n = len(J)
    if n == 1: return J[0][0]
    return sum(((-1) ** j * J[0][j] * det([[J[i][c] for c in range(n) if c != j] for i in range(1, n)]) for j in range(n)), 0)
def solve(J, b):
    n, d = len(J), det(J)
    return [det([[b[i] if c == j else J[i][c] for c in range(n)] for i in range(n)]) / d for j in range(n)]

ASSUMPTIONS = ["scipy's spsolve is represented by the exact solution of the linear system (NaN if the matrix is singular); the derivative is not required to belong to the function"]
SCENARIOS = [
    Scn("one-unknown", arb, n=1, nfev=3, covers=("converged-1", "converged-2", "converged-3", "failed"), bounds="1 unknown, up to 3 iterations, any function values, derivatives, tolerances, start point"),
    Scn("called-before", arb, n=1, nfev=2, again=True, bystep=True, covers=("converged-1", "converged-2", "failed"), bounds="1 unknown, up to 2 iterations, after one iteration from the same start point with other additional arguments and other values"),
    Scn("one-iteration", arb, n=1, nfev=1, logs=(0, 1, 2), covers=("converged-1", "failed"), bounds="1 unknown, a single iteration (as used for pre-identification), log levels 0..2"),
    Scn("two-unknowns", arb, n=2, nfev=2, bystep=True, covers=("converged-1", "converged-2", "failed"), bounds="2 unknowns, up to 2 iterations; the function values are parametrised by the correction they cause (all values, as the derivative is regular)"),
    Scn("two-unknowns-values", arb, n=2, nfev=2, covers=("converged-1", "converged-2", "failed"), bounds="2 unknowns, up to 2 iterations", tier="thorough", path_limit=600),
    Scn("singular", arb, n=1, nfev=2, singular=True, covers=("singular", "converged-1", "failed"), bounds="1 unknown, derivative may vanish"),
    Scn("default-tolerances", arb, n=1, nfev=2, default="tol", covers=("converged-1", "failed"), bounds="tolerances 1e-8"),
    Scn("many-iterations", arb, n=1, nfev=9, bystep=True, slow=True, covers=("converged-9", "failed"), bounds="1 unknown, 9 iterations that go one way, the last one may converge"),
    Scn("twenty-iterations", arb, n=1, nfev=20, bystep=True, slow=True, covers=("converged-20", "failed"), bounds="1 unknown, 20 iterations that go one way, the last one may converge", tier="thorough"),
    Scn("five-iterations", arb, n=1, nfev=5, covers=("converged-5", "failed"), bounds="1 unknown, up to 5 iterations", tier="thorough", path_limit=600),
    Scn("three-unknowns", arb, n=3, nfev=2, bystep=True, covers=("converged-2", "failed"), bounds="3 unknowns, up to 2 iterations", tier="thorough", path_limit=900),
]
