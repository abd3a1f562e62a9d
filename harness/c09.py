"""C09: extended residual and matrix handed to the Newton solver, for every control component."""
from .common import *

def extended(env, nn, conns, mats, flags, js, dim=3, second=False, decoy=False, plain=False):
    """plain: given coordinates and displacements (everything else arbitrary)"""
    Z = [0.0] * (3 - dim)
    if plain:
        X = [[3.0 * i + (i % 2), 2.0 * (i % 3), float(i * i % 5)] for i in range(nn)]
        U = [[0.125 * (1 + (3 * i + k) % 7) if flags[i][k] else 0.0 for k in range(3)] for i in range(nn)]
    else:
        X = [vec(env, "X%d" % i, dim) + Z for i in range(nn)]
        U = [[env.real("U%d_%d" % (i, k)) if flags[i][k] else 0.0 for k in range(3)] for i in range(nn)]
    f1 = [vec(env, "f%d" % i, 3) for i in range(nn)]
    f2 = [vec(env, "h%d" % i, 3) for i in range(nn)] if second else None
    els, st = [], []
    for k, (m, (a, b)) in enumerate(zip(mats, conns)):
        E, A = env.real("E%d" % k, pos=True), env.real("A%d" % k, pos=True)
        p = [E] if m == 1 else [E, env.real("K%d" % k, lo=0), env.real("Sy%d" % k, pos=True)]
        if 2 in mats and m == 1: p = p + [0.0, 0.0]
        els.append(El(k + 1, (a + 1, b + 1), A, m, p))
        positive_lengths(env, X[a], X[b], U[a], U[b])
    free = [(i, k) for i in range(nn) for k in range(3) if flags[i][k]]
    n = len(free)
    j = env.choice("j", js)
    du, dl = (2048.0, 2048.0) if second else (env.real("du", pos=True), env.real("dl", pos=True))
    lpf = env.real("lpf")
    jj = n + 1 if j is None else j
    idx, sg = abs(jj) - 1, 1 if jj > 0 else -1
    def build(M):
        define(M, [(i + 1, tuple(X[i])) for i in range(nn)], els, [(i + 1, flags[i]) for i in range(nn)], [(i + 1, tuple(f1[i]) + (tuple(f2[i]) if second else ())) for i in range(nn)])
        if second: M.Settings.nsteps = 2
    u1, l1 = [0.0] * n, 0.0
    if second: u1, l1 = [0.0625 * (q % 5 - 1) if plain else env.real("s%d" % q, -4, 4) for q in range(n)], env.real("l1", -4, 4)
    def script(k, F, J, x, M, call):
        if second and k == 0:
            for (a, b) in [] if plain else conns:
                W = [[0.0] * 3 for _ in range(nn)]
                for q, (i, c) in enumerate(free): W[i][c] = u1[q]
                positive_lengths(env, X[a], X[b], W[a], W[b])
            return u1 + [l1], True, 1, 0.0, 0.0
        f = f2 if second else f1
        x0 = u1 + [0.0]
        xs = [U[i][c] for i, c in free] + [lpf]
        env.eq([x[i] for i in range(n + 1)], x0, "start point")
        for e, (a, b) in zip(els, conns):
            if e.mtype == 2: off_limit(env, e.mprop[0] * (force_of(env, X[a], X[b], U[a], U[b], lambda s: s, 1)[0] - 1), e.mprop[2])
        Fv, D = (F(xs), None) if plain else jacobian(env, F, xs, n + 1)
        env.check(len(Fv) == n + 1, "length of the residual")
        target = x0[idx] + sg * (du if idx < n else dl)
        env.eq(Fv[n], xs[idx] - target, "control equation")
        if not (2 in mats):
            R = [[0, 0, 0] for _ in range(nn)]
            for e, (a, b) in zip(els, conns):
                r = force_of(env, X[a], X[b], U[a], U[b], lambda s: e.mprop[0] * s, e.A)[3]
                R[a], R[b] = sub(R[a], r), add(R[b], r)
            env.eq([Fv[q] for q in range(n)], [R[i][c] - lpf * f[i][c] - (l1 * f1[i][c] if second else 0.0) for i, c in free], "internal minus external force")
        Jv = J(xs)
        env.check(Jv.shape == (n + 1, n + 1), "shape of the matrix")
        if D is not None: eq_jac(env, [[Jv[p, q] for q in range(n + 1)] for p in range(n + 1)], D, "extended matrix is the derivative of the extended residual")
        env.eq([Jv[p, n] for p in range(n)], [-f[i][c] for i, c in free], "last column")
        env.eq([Jv[n, q] for q in range(n + 1)], [1.0 if q == idx else 0.0 for q in range(n + 1)], "control row")
        env.observe("F", Fv); env.observe("J", Jv)
        raise Probe()
    try: drive(env, build, script, j_pre=False, j_fixed=True, j0=j, du=du, dlpf=dl, incs=1, decoy=decoy)
    except Probe: return
    raise AssertionError("the solver was not called")

def second_step(env, **k):
    return extended(env, second=True, **k)

LONG = [(i, i + 1) for i in range(4)] + [(2, 0), (4, 2), (3, 1)]

SCENARIOS = [
    Scn("many-dof", extended, bounds="7 elements, 5 nodes with given coordinates and displacements, 12 free DOF, every control component 1..13 of either sign and the default; elastic moduli, areas, loads, step limits, load factor arbitrary", plain=True, nn=5, conns=LONG, mats=[1] * 7, flags=[(0, 1, 0), (1, 1, 1), (0, 1, 1), (1, 1, 1), (1, 1, 1)], js=[None] + [s * c for c in range(1, 14) for s in (1, -1)]),
    Scn("many-dof-second-step", second_step, bounds="the second load step; 12 free DOF", plain=True, nn=5, conns=LONG, mats=[1] * 7, flags=[(0, 1, 0), (1, 1, 1), (0, 1, 1), (1, 1, 1), (1, 1, 1)], js=[None, 1, 10, -12, 13]),
    Scn("after-another-model", extended, decoy=True, bounds="another model with the same labels, other coordinates, parameters, element order and one node more has been run before; 2 elements, 4 free DOF", nn=3, conns=[(0, 1), (2, 1)], mats=[1, 1], flags=[(0, 0, 0), (1, 1, 1), (0, 1, 0)], js=[None, 2, -4]),
    Scn("chain", extended, bounds="2 elastic elements in space on 3 nodes, 4 free DOF, every control component 1..5 of either sign and the default", nn=3, conns=[(0, 1), (2, 1)], mats=[1, 1], flags=[(0, 0, 0), (1, 1, 1), (0, 1, 0)], js=[None, 1, 2, 3, 4, 5, -1, -2, -3, -4, -5]),
    Scn("plastic", extended, bounds="elastic-plastic bar in space, 3 free DOF, every control component", nn=2, conns=[(0, 1)], mats=[2], flags=[(0, 0, 0), (1, 1, 1)], js=[None, 1, 2, 3, 4, -1, -2, -3, -4]),
    Scn("one-dof", extended, bounds="one free DOF in the middle of the DOF list", nn=2, conns=[(1, 0)], mats=[1], flags=[(0, 1, 0), (0, 0, 0)], js=[None, 1, 2, -1, -2]),
    Scn("second-step", second_step, bounds="the second load step, with its own load vector, of an elastic bar in the plane; 2 free DOF, every control component", nn=2, conns=[(0, 1)], mats=[1], flags=[(0, 0, 0), (1, 1, 0)], js=[None, 1, 2, 3, -1, -2, -3], dim=2),
    Scn("second-step-chain", second_step, bounds="the second load step of 2 elastic elements in space, 4 free DOF", nn=3, conns=[(0, 1), (2, 1)], mats=[1, 1], flags=[(0, 0, 0), (1, 1, 1), (0, 1, 0)], js=[None, 3, -2], tier="thorough", path_limit=900),
    Scn("big", extended, bounds="5 elements, 4 nodes, 9 free DOF, elastic and elastic-plastic", nn=4, conns=[(0, 1), (2, 1), (1, 3), (3, 0), (3, 2)], mats=[1, 1, 2, 1, 1], flags=[(1, 0, 0), (1, 1, 1), (0, 1, 1), (1, 1, 1)], js=[None, 1, 5, 9, 10, -3, -10], tier="thorough", path_limit=900),
]
