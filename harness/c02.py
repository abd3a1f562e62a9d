"""C02: matrix handed to the solver = derivative of the residual handed to the solver."""
from .common import *

def tangent(env, mats, nn, conns, flags=None, planar=False, elsewhere=True):
    dim = 2 if planar else 3
    X = [vec(env, "X%d" % i, dim) + [0.0] * (3 - dim) for i in range(nn)]
    U = [vec(env, "U%d" % i, dim) + [0.0] * (3 - dim) for i in range(nn)]
    flags = flags or [(1,) * dim + (0,) * (3 - dim)] * nn
    for i in range(nn):
        for k in range(3):
            if not flags[i][k]: U[i][k] = 0.0
    lpf = env.real("lpf")
    els, st = [], []
    for k, (m, (a, b)) in enumerate(zip(mats, conns)):
        E, A = env.real("E%d" % k, pos=True), env.real("A%d" % k, pos=True)
        p = [E] if m == 1 else [E, env.real("K%d" % k, lo=0), env.real("Sy%d" % k, pos=True)]
        if 2 in mats and m == 1: p = p + [0.0, 0.0]
        els.append(El(k + 1, (a + 1, b + 1), A, m, p))
        positive_lengths(env, X[a], X[b], U[a], U[b])
        st.append((env.real("sy%d" % k, pos=True), env.real("ep%d" % k)) if m == 2 else (0.0, 0.0))
    def build(M):
        define(M, [(i + 1, tuple(X[i])) for i in range(nn)], els, [(i + 1, flags[i]) for i in range(nn)], [(1, (1.0, -2.0, 0.5))])
    free = [U[i][k] for i in range(nn) for k in range(3) if flags[i][k]]
    n = len(free)
    W = [[U[i][k] + (0.375 * (i + 1) if flags[i][k] else 0.0) for k in range(3)] for i in range(nn)]
    away = [W[i][k] for i in range(nn) for k in range(3) if flags[i][k]]
    if elsewhere:
        for a, b in conns: positive_lengths(env, X[a], X[b], W[a], W[b])
    def fn(F, J, x, M):
        if 2 in mats:
            for k in range(len(els)): M.Analysis.state_v[k] = list(st[k])
        for k, (m, (a, b)) in enumerate(zip(mats, conns)):
            if m == 2:
                lam = force_of(env, X[a], X[b], U[a], U[b], lambda e: e, 1)[0]
                off_limit(env, els[k].mprop[0] * (lam - 1 - st[k][1]), st[k][0])
        Fv, D = jacobian(env, F, free + [lpf], n)
        Kf = J(free + [lpf])
        env.check(Kf.shape == (n + 1, n + 1), "shape of the matrix")
        eq_jac(env, [[Kf[i, j] for j in range(n)] for i in range(n)], [r[:n] for r in D[:n]], "tangent")
        env.eq([[Kf[i, j] for j in range(n)] for i in range(n)], [[Kf[j, i] for j in range(n)] for i in range(n)], "symmetry")
        if 2 in mats: env.eq(M.Analysis.state_v, [list(s) for s in st], "history after evaluating residual and matrix")
        F2 = F(free + [lpf])
        env.eq([F2[i] for i in range(n + 1)], Fv, "residual after evaluating the matrix")
        J2 = J(free + [lpf])
        env.eq(J2, Kf, "matrix evaluated twice")
        if elsewhere:
            F(away + [lpf])
            env.eq(J(free + [lpf]), Kf, "matrix after evaluating the residual at another point")
            J(away + [lpf])
            F3 = F(free + [lpf])
            env.eq([F3[i] for i in range(n + 1)], Fv, "residual after evaluating the matrix at another point")
            if 2 in mats: env.eq(M.Analysis.state_v, [list(s) for s in st], "history after evaluations at several points")
        env.observe("K", Kf); env.observe("F", F2)
    probe(env, build, fn)

SCENARIOS = [
    Scn("elastic", tangent, bounds="one element in space, all coordinates and displacements free, E, A > 0", mats=[1], nn=2, conns=[(0, 1)]),
    Scn("plastic", tangent, bounds="as elastic, elastic-plastic from any committed (yield stress > 0, plastic strain), K >= 0", mats=[2], nn=2, conns=[(0, 1)]),
    Scn("two-elements", tangent, bounds="two elements (elastic, elastic-plastic) sharing a node, plane", mats=[1, 2], nn=3, conns=[(0, 1), (2, 1)], planar=True),
    Scn("locked-dofs", tangent, bounds="triangle of three elements in space with some locked DOF", mats=[1, 1, 1], nn=3, conns=[(0, 1), (2, 1), (0, 2)], flags=[(0, 0, 0), (1, 0, 1), (1, 1, 0)], tier="quick"),
    Scn("two-parallel", tangent, bounds="two elements between the same pair of nodes, opposite direction", mats=[1, 2], nn=2, conns=[(0, 1), (1, 0)], planar=True),
    Scn("three-elements-plastic", tangent, bounds="three elastic-plastic elements on three nodes in space", mats=[2, 2, 2], nn=3, conns=[(0, 1), (2, 1), (0, 2)], tier="thorough", path_limit=600, elsewhere=False),
]
