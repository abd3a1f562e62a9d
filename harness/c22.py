"""C22: locked degrees of freedom."""
from .common import *

def locked(env, n=2, conns=((0, 1),), flags="sym", steps=1, incs=1, lab=None, coords="far", undefined=(), partial=True, j0="first", moments=True, mats=(1,), decoy=False):
    labs = labels(env, n, -BIG, BIG, "n") if lab is None else list(lab)
    rank = [sum(1 for j in range(n) if j != i and env.truth(labs[j] < labs[i])) for i in range(n)]
    asc = sorted(range(n), key=lambda i: rank[i])
    X = [[2.0 * i, 1.0 * (i % 2), 0.5 * i] for i in range(n)] if coords == "far" else [[2.0 * i, 0.0, 0.0] for i in range(n)] if coords == "line" else [vec(env, "X%d_" % i) for i in range(n)]
    B = []
    for i in range(n):
        if i in undefined: B.append([1, 1, 1])
        elif flags == "sym": B.append([env.int("b%d%d" % (i, c), 0, 1) for c in range(3)])
        else: B.append(list(env.choice("p%d" % i, flags)))
    F = [[vec(env, "f%d_%d_" % (s, i), lo=-4, hi=4) for i in range(n)] for s in range(steps)]
    free = [(i, c) for i in asc for c in range(3) if env.truth(B[i][c] == 1)]
    if not free: raise Stop("nothing to solve for")
    m = len(free)
    def build(M):
        for i in range(n - 1, -1, -1): M.Nodes.add_node(labs[i], coord=tuple(X[i]))
        for k, (a, b) in enumerate(conns):
            t = mats[k % len(mats)]
            M.Elements.add_element(k + 1, conn=(labs[a], labs[b]), mat_type=t, mprop=[8.0, 4.0, 0.0625][:3 if 2 in mats else 1], gprop=[1.0 + k, 0.625])
        for i in range(n):
            if i not in undefined: M.Boundaries.add_bound_U(labs[i], tuple(B[i]))
        for i in range(n): M.ExtForces.add_force(labs[i], tuple(v for s in range(steps) for v in F[s][i]))
        M.Settings.nsteps = steps
    hist = []                       # (U, lpf, step)
    tot = steps * incs
    def full(xs):
        U = [[0.0] * 3 for _ in range(n)]
        for (i, c), v in zip(free, xs): U[i][c] = v
        return U
    def ends():
        return [hist[(s + 1) * incs - 1][1] for s in range(len(hist) // incs)]
    def ext(i, c, lpf, s):
        return sum((e * F[t][i][c] for t, e in enumerate(ends()[:s])), 0.0) + lpf * F[s][i][c]
    def lengths(U):
        for a, b in conns: env.assume(norm(env, sub(add(X[a], U[a]), add(X[b], U[b]))) > 0)
    if coords == "sym":
        for a, b in conns: env.assume(norm(env, sub(X[a], X[b])) > 0)
    def force(U):
        r = [[0.0] * 3 for _ in range(n)]
        for k, (a, b) in enumerate(conns):
            q = force_of(env, X[a], X[b], U[a], U[b], lambda e: 8.0 * e, 1.0 + k)[3]
            r[a], r[b] = sub(r[a], q), add(r[b], q)
        return r
    def script(k, Fn, J, x, M, call):
        if k >= tot: raise Stop("more increments than expected")
        s = k // incs
        env.check(len(x) == m + 1, "one unknown per free degree of freedom and the load factor")
        A = M.Analysis
        if k == 0: env.eq([x[q] for q in range(m + 1)], [0.0] * (m + 1), "start point")
        elif len(x) == m + 1: env.eq([x[q] for q in range(m)], [hist[-1][0][i][c] for i, c in free], "start point: free degrees of freedom in node order")
        # disjoint ranges of the increments: which component moves most is not the point here
        xs = [(-1) ** q * ((k + 1) * (q + 1) / 64 + env.real("u%d_%d" % (k, q), 0, 1 / 256)) for q in range(m)]
        l = 0.5 + (k % incs) * 0.5 + env.real("l%d" % k, 0, 0.25)
        U = full(xs)
        if coords == "sym": lengths(U)
        Fv = Fn(xs + [l]); Jv = J(xs + [l])
        env.check(len(Fv) == m + 1 and tuple(Jv.shape) == (m + 1, m + 1), "size of residual and matrix")
        if len(Fv) != m + 1 or tuple(Jv.shape) != (m + 1, m + 1): raise Stop()
        if 2 not in mats:
            r = force(U)
            env.eq([Fv[q] for q in range(m)], [r[i][c] - ext(i, c, l, s) for i, c in free], "residual of the free degrees of freedom in node order")
        env.eq([Jv[q, m] for q in range(m)], [-F[s][i][c] for i, c in free], "load column of the free degrees of freedom")
        env.eq([M.Analysis.U[rank[i]][c] for i in range(n) for c in range(3)], [U[i][c] for i in range(n) for c in range(3)], "displacements while iterating: locked ones are zero")
        hist.append((U, l))
        return xs + [l], True, 1, 0.0, 0.0
    M = drive(env, build, script, j_pre=False, j_fixed=True, j0=1, du=16.0, dlpf=16.0, dxtol=1.0, incs=incs, cycl=1, stepcontrol=False, decoy=decoy)
    R = M.Results.R
    env.check(len(R) == tot + 1, "undeformed state and every increment recorded")
    if len(R) != tot + 1: raise Stop()
    for k, r in enumerate(R):
        U, l = hist[k - 1] if k else ([[0.0] * 3] * n, 0.0)
        s = (k - 1) // incs if k else 0
        for i in range(n):
            for c in range(3):
                lk = (i, c) not in free
                env.eq(r.U[rank[i]][c], U[i][c], "result %d: %s" % (k, "locked displacement" if lk else "free displacement"))
        if not k: continue
        g = r.g
        tf, tm = [0.0] * 3, [0.0] * 3
        for i in range(n):
            # what the node takes from the structure: reaction at locked, load minus out-of-balance force at free ones
            p = []
            for c in range(3):
                if (i, c) in free: p.append(ext(i, c, l, s) - g[3 * rank[i] + c])
                else: p.append(r.r[rank[i]][c])
            x = add(X[i], U[i])
            tf = add(tf, p)
            tm = add(tm, [x[1] * p[2] - x[2] * p[1], x[2] * p[0] - x[0] * p[2], x[0] * p[1] - x[1] * p[0]])
        env.eq(tf, [0.0] * 3, "global equilibrium of forces in result %d" % k)
        if moments: env.eq(tm, [0.0] * 3, "global equilibrium of moments in result %d" % k)
        if 2 not in mats:
            w = force(U)
            env.eq([r.r[rank[i]][c] for i in range(n) for c in range(3)], [w[i][c] for i in range(n) for c in range(3)], "internal forces of result %d" % k)
    env.observe("U", [r.U for r in R]); env.observe("r", [r.r for r in R])
    env.cover("run"); env.cover("free%d" % m)

TRI = ((0, 1), (1, 2), (2, 0))
SOME = [(1, 0, 1), (0, 1, 0), (0, 0, 0)]
SCENARIOS = [
    Scn("all-patterns-2", locked, n=2, lab=(7, 3), covers=("run", "free1", "free6"), bounds="2 nodes, every boundary pattern with a free degree of freedom, arbitrary loads, displacements"),
    Scn("all-patterns-3", locked, n=3, conns=TRI, lab=(2, 9, 4), covers=("run", "free1", "free9"), bounds="3 nodes and bars, every boundary pattern, arbitrary loads, displacements"),
    Scn("labels", locked, n=3, conns=((0, 1), (2, 1)), flags=SOME, covers=("run",), bounds="3 nodes with arbitrary labels, several patterns"),
    Scn("unconnected", locked, n=3, conns=((0, 1),), lab=(7, 3, 5), flags=[(1, 0, 1), (0, 0, 0)], undefined=(2,), steps=2, covers=("run",), bounds="a free node that no bar is connected to, loads on it arbitrary, 2 steps"),
    Scn("undefined", locked, n=3, conns=TRI, lab=(2, 9, 4), flags=SOME, undefined=(1,), covers=("run",), bounds="a node without any boundary condition is free"),
    Scn("steps", locked, n=2, steps=2, incs=2, lab=(7, 3), flags=SOME, covers=("run",), bounds="2 steps of 2 increments"),
    Scn("anywhere", locked, n=2, coords="sym", lab=(7, 3), flags=SOME, covers=("run",), bounds="2 nodes anywhere in space"),
    Scn("plastic", locked, n=3, conns=((0, 1), (1, 2)), coords="line", lab=(2, 9, 4), flags=[(1, 0, 0), (0, 0, 0)], steps=2, mats=(2,), covers=("run",), bounds="elastic-plastic bars in a line, 2 steps"),
    Scn("after-another-model", locked, n=3, conns=TRI, flags=SOME, lab=(2, 9, 4), decoy=True, covers=("run",), bounds="another model with the same labels, other coordinates, parameters, element order and one node more has been run before"),
    Scn("all-patterns-steps", locked, n=3, conns=TRI, steps=2, incs=1, lab=(5, 1, 3), covers=("run",), bounds="3 nodes, every boundary pattern, 2 steps", tier="thorough", path_limit=600),
    Scn("all-patterns-4", locked, n=4, conns=((0, 1), (1, 2), (2, 3), (3, 0)), lab=(5, 1, 3, 8), undefined=(2,), covers=("run",), bounds="4 nodes, every boundary pattern of three of them", tier="thorough", path_limit=600),
]
