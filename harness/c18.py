"""C18: history and path plots."""
from .plots import *
KINDS = ["Displacement X", "Displacement Y", "Displacement Z", "Force X", "Force Y", "Force Z", "LPF", "Increments"]

def value(S, kind, inc, node):
    "recorded quantity at node number"
    R = S.M.Results.R[inc]
    d = "XYZ".find(kind[-1])
    if kind.startswith("Disp"): return R.U[S.rank[node]][d]
    if kind.startswith("Force"): return R.r[S.rank[node]][d]
    if kind == "LPF": return R.lpf
    return inc

def newest(env, ax, before, what):
    L = drawn(ax)["lines"]
    env.check(len(L) == before + 1, what + ": one curve is drawn")
    if len(L) != before + 1: raise Stop()
    return [list(v) for v in L[-1]["xyz"]]

def hist(env, pairs="all", existing=False, kinds=None, **kw):
    S = Shown(env, **kw)
    M, n = S.M, S.n
    nr = len(M.Results.R)
    for k in range(nr): env.eq(M.Results.R[k].U, [S.U[k][i] for i in S.asc], "recorded displacements")
    fig = ax = None
    for X in kinds or KINDS:
        for Y in KINDS:
            every = [(i, j) for i in range(n) for j in range(n)]
            for a, b in ([every[(KINDS.index(X) + KINDS.index(Y) * n) % n**2]] if pairs == "all" else pairs):
                before = 0
                if existing and fig is not None:
                    f2, a2 = M.plot_history(nodes=[S.lab[a], S.lab[b]], X=X, Y=Y, fig=fig, ax=ax)
                    env.check(a2 is ax, "curve drawn into the given axes")
                    before = existing_n
                else: f2, a2 = M.plot_history(nodes=[S.lab[a], S.lab[b]], X=X, Y=Y)
                if existing: fig, ax, existing_n = f2, a2, before + 1
                x, y = newest(env, a2, before, "history %s/%s" % (X, Y))
                d = drawn(a2)
                env.check(X in str(d["xlabel"]) and Y in str(d["ylabel"]), "history: axes are labelled %r and %r, drawn are %s and %s" % (d["xlabel"], d["ylabel"], X, Y))
                env.eq(x, [value(S, X, k, a) for k in range(nr)], "history: %s of the first node" % X)
                env.eq(y, [value(S, Y, k, b) for k in range(nr)], "history: %s of the second node (x axis: %s)" % (Y, X))
            if not existing: closeall(env)
    env.cover("drawn")

def path(env, paths, at, nincs, ranged=False, existing=False, **kw):
    S = Shown(env, incs=nincs, **kw)
    M = S.M
    nr = len(M.Results.R)
    for p in paths:
        for inc in at:
            fig = ax = None; before = 0
            for Y in KINDS[:-1]:
                np_ = [S.lab[i] for i in p]
                arg = np_
                if ranged:
                    arg = range(int(np_[0]), int(np_[-1]) + 1)
                f2, a2 = M.plot_path(nodepath=arg, increment=inc, Y=Y, fig=fig, ax=ax) if existing else M.plot_path(nodepath=arg, increment=inc, Y=Y)
                x, y = newest(env, a2, before, "path " + Y)
                env.check(Y in str(drawn(a2)["ylabel"]), "path: axis is labelled %r, drawn is %s" % (drawn(a2)["ylabel"], Y))
                if existing: fig, ax, before = f2, a2, before + 1
                k = inc if inc >= 0 else nr + inc
                env.eq(y, [value(S, Y, k, i) for i in p], "path: %s of increment %d" % (Y, inc))
                for u, v in zip(x, x[1:]): env.check(u < v, "path: nodes drawn one after the other")
                if not env.truth(env.and_(*[u == v for u, v in zip(x, np_)])):
                    t = drawn(a2)["ticks"]
                    env.eq(t.get("x"), x, "path: one tick per node")
                    env.eq(t.get("xl"), np_, "path: tick labels are the node labels")
            closeall(env)
    env.cover("drawn")

SCENARIOS = [
    Scn("history-pairs", hist, n=3, free=(1,), steps=1, incs=1, covers=("drawn",), bounds="3 nodes with arbitrary labels, every ordered pair of nodes, all 8x8 quantities, 1 increment"),
    Scn("history-steps", hist, n=3, free=(0, 2), steps=2, incs=1, lab=(7, 2, 4), pairs=((0, 2), (2, 1)), covers=("drawn",), bounds="2 steps, arbitrary displacements and load factors, all 8x8 quantities"),
    Scn("history-into", hist, n=2, free=(1,), steps=1, incs=3, existing=True, kinds=["Displacement Y", "Increments"], pairs=((0, 1),), covers=("drawn",), bounds="curves added to existing axes, 3 increments"),
    Scn("history-arbitrary", hist, n=3, free=(1,), steps=1, incs=2, pairs=((0, 1), (2, 0)), arbitrary=True, covers=("drawn",), bounds="results with arbitrary displacements, internal forces and load factors, 3 nodes with arbitrary labels"),
    Scn("path", path, n=3, free=(1,), steps=1, nincs=2, paths=((0, 1, 2), (2, 0, 1), (1, 2, 1, 0)), at=(-1, 0, 1, 2, -2), covers=("drawn",), bounds="3 nodes with arbitrary labels, paths in any order and passing a node twice, increments counted from either end"),
    Scn("path-steps", path, n=4, free=(1, 3), steps=2, nincs=1, lab=(6, 2, 9, 4), paths=((3, 0, 1, 2), (2,)), at=(-1, 1), existing=True, covers=("drawn",), bounds="2 steps, 4 nodes, several curves in the same axes"),
    Scn("path-range", path, n=3, free=(1,), steps=1, nincs=1, lab=(4, 5, 6), paths=((0, 1, 2),), at=(-1, 1), ranged=True, covers=("drawn",), bounds="path given as a range of labels"),
    Scn("history-twelve", hist, n=2, free=(1,), steps=1, incs=12, pairs=((0, 1),), kinds=["Displacement X", "LPF", "Increments"], covers=("drawn",), bounds="12 increments, 2 nodes with arbitrary labels"),
    Scn("path-many", path, n=7, free=(1, 3, 6), steps=1, nincs=1, lab=(60, 100, 9, 10, -4, 7, 11), conns=[(0, 1), (2, 1), (3, 2), (3, 4), (5, 4), (6, 5), (0, 6)], paths=((3, 0, 1, 2, 6, 5, 4), (4, 5, 2, 3, 6)), at=(-1, 1), covers=("drawn",), bounds="7 nodes, labels of different numbers of digits and signs"),
    Scn("after-another-model", hist, n=3, free=(1,), steps=1, incs=1, decoy=True, covers=("drawn",), bounds="as history-pairs, after a run of another model with the same labels"),
    Scn("history-many", hist, n=4, free=(1, 2), steps=3, incs=2, covers=("drawn",), pairs=((0, 3), (1, 2), (2, 1)), bounds="4 nodes with arbitrary labels, 3 steps of 2 increments", tier="thorough", path_limit=600),
]
