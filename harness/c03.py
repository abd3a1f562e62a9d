"""C03: rigid motions and self balance, by comparing two residual evaluations."""
from .common import *

def cross(a, b): return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]

def motion(env, kind, mats, nn, conns, hist=True):
    X = [vec(env, "X%d" % i) for i in range(nn)]
    U = [vec(env, "U%d" % i) for i in range(nn)]
    els, st = [], []
    for k, (m, (a, b)) in enumerate(zip(mats, conns)):
        E, A = env.real("E%d" % k, pos=True), env.real("A%d" % k, pos=True)
        p = [E, 0.375, 0.0625] if m == 1 and 2 in mats else [E] if m == 1 else [E, env.real("K%d" % k, lo=0), env.real("Sy%d" % k, pos=True)]
        els.append(El(k + 1, (a + 1, b + 1), A, m, p))
        positive_lengths(env, X[a], X[b], U[a], U[b])
        st.append((env.real("sy%d" % k, pos=True), env.real("ep%d" % k)) if m == 2 else (0.0, 0.0))
    x = [add(X[i], U[i]) for i in range(nn)]
    if kind == "translation":
        t = vec(env, "t")
        y = [add(p, t) for p in x]
        rot = lambda v: v
    else:
        ax = env.choice("axis", [0, 1, 2])
        c = env.real("c", -1, 1)
        s = env.sqrt(1 - c * c)
        if env.flag("neg"): s = -s
        i, j = (ax + 1) % 3, (ax + 2) % 3
        def rot(v):
            w = list(v)
            w[i], w[j] = c * v[i] - s * v[j], s * v[i] + c * v[j]
            return w
        t = vec(env, "t")
        y = [add(rot(p), t) for p in x]
    V = [sub(y[i], X[i]) for i in range(nn)]
    def build(M):
        define(M, [(i + 1, tuple(X[i])) for i in range(nn)], els, [], [(1, (0.0, 0.0, 0.0))])
    def fn(F, J, x0, M):
        if 2 in mats:
            for k in range(len(els)): M.Analysis.state_v[k] = list(st[k])
        def ev(W):
            F([c for u in W for c in u] + [0.0])
            a = M.Analysis
            return [v.copy() for v in (a.stretch, a.element_stress, a.element_force, a.r)]
        l0, s0, n0, r0 = ev(U)
        l1, s1, n1, r1 = ev(V)
        env.eq(l1, l0, "stretches after the motion")
        env.eq(s1, s0, "stresses after the motion")
        env.eq(n1, n0, "normal forces after the motion")
        for i in range(nn): env.eq([r1[i][k] for k in range(3)], rot([r0[i][k] for k in range(3)]), "internal forces at node %d after the motion" % (i + 1))
        tot, mom = [0, 0, 0], [0, 0, 0]
        for i in range(nn):
            f = [r1[i][k] for k in range(3)]
            tot, mom = add(tot, f), add(mom, cross(y[i], f))
        env.eq(tot, [0.0] * 3, "resultant of the internal forces")
        env.eq(mom, [0.0] * 3, "resultant moment of the internal forces")
        env.observe("r", r1)
    probe(env, build, fn)

tri = dict(nn=3, conns=[(0, 1), (2, 1), (0, 2)])
SCENARIOS = [
    Scn("translate-one-elastic", motion, bounds="one elastic element in space, everything symbolic", kind="translation", mats=[1], nn=2, conns=[(0, 1)]),
    Scn("rotate-one-elastic", motion, bounds="one elastic element in space, any rotation about each axis followed by a translation", kind="rotation", mats=[1], nn=2, conns=[(0, 1)]),
    Scn("rotate-one-plastic", motion, bounds="one elastic-plastic element from any history", kind="rotation", mats=[2], nn=2, conns=[(1, 0)]),
    Scn("translate-triangle", motion, bounds="three elements on three nodes", kind="translation", mats=[1, 1, 1], **tri),
    Scn("rotate-triangle", motion, bounds="three elements on three nodes", kind="rotation", mats=[1, 1, 1], **tri),
    Scn("rotate-chain-plastic", motion, bounds="an elastic and an elastic-plastic element sharing a node, any history", kind="rotation", mats=[1, 2], nn=3, conns=[(0, 1), (2, 1)]),
    Scn("rotate-tetrahedron", motion, bounds="six elastic elements on four nodes", kind="rotation", mats=[1] * 6, nn=4, conns=[(0, 1), (2, 1), (0, 2), (0, 3), (3, 1), (2, 3)], tier="thorough", path_limit=800),
    Scn("rotate-triangle-plastic", motion, bounds="three elastic-plastic elements", kind="rotation", mats=[2, 2, 2], tier="thorough", path_limit=800, **tri),
]
