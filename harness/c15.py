"""C15: building aligns all tables by node label and fills in defaults."""
from .common import *

def perms(n):
    import itertools
    return [list(p) for p in itertools.permutations(range(n))]

def tables(env, nn, bsub, fsub, steps=1, nperm=None, symflags=3, rebuild=0, objects=False, lo=-BIG, hi=BIG, labs=None, decoy=False):
    L = labels(env, nn, lo, hi, "n") if labs is None else list(env.choice("labels", list(labs)))
    X = [vec(env, "X%d" % i) for i in range(nn)]
    pn = env.choice("perm_n", nperm or perms(nn))
    bs = env.choice("bounds", bsub)
    fs = env.choice("forces", fsub)
    flags = {i: [(env.int("b%d_%d" % (i, k), 0, 1) if k < symflags else 1 - k % 2) for k in range(3)] for i in bs}
    force = {i: vec(env, "f%d" % i, 3 * steps) for i in fs}
    if decoy:
        box = {}
        def newton(f, dfdx, x, *a): raise AssertionError
        tp, M = new_model(env, hooks=with_newton(newton, box))
        def other(D):
            for i in range(nn): D.Nodes.add_node(L[nn - 1 - i], coord=(1.0 * i, 2.0 * (i % 2), 0.0))
            for i in range(nn - 1): D.Elements.add_element(1 + i, conn=(L[i], L[i + 1]), mprop=[1.0], gprop=[1.0, 0.625])
            D.Boundaries.add_bound_U(L[0], (0, 0, 0)); D.ExtForces.add_force(L[nn - 1], (1.0, 0.0, 0.5) * steps)
            D.Settings.nsteps = steps
        other_first(env, tp, other, box)
    else: tp, M = new_model(env)
    add_n, add_b, add_f = M.Nodes.add_node, M.Boundaries.add_bound_U, M.ExtForces.add_force
    conn = (L[0], L[1])
    if objects:
        M.Nodes.add_nodes([tp.core.Node(L[i], coord=tuple(X[i])) for i in pn])
        M.Elements.add_elements([tp.core.Element(1, conn=conn, mprop=[1.0], gprop=[1.0, 0.625])])
        M.Boundaries.add_bounds_U([tp.core.BoundaryU(L[i], tuple(flags[i])) for i in bs])
        M.ExtForces.add_forces([tp.core.ExternalForce(L[i], tuple(force[i])) for i in fs])
    else:
        late = pn[-1] if rebuild and pn[-1] not in (0, 1) else None
        for i in pn:
            if i != late: add_n(L[i], coord=tuple(X[i]))
        M.Elements.add_element(1, conn=conn, mprop=[1.0], gprop=[1.0, 0.625])
        for i in bs:
            if i != late: add_b(L[i], tuple(flags[i]))
        for i in fs:
            if i != late: add_f(L[i], tuple(force[i]))
        if late is not None and fs != [late] and bs != [late]:
            M.Settings.nsteps = steps
            M.build()
            env.cover("rebuilt")
        if late is not None:
            add_n(L[late], coord=tuple(X[late]))
            if late in bs: add_b(L[late], tuple(flags[late]))
            if late in fs: add_f(L[late], tuple(force[late]))
    M.Settings.nsteps = steps
    M.build()
    compare(env, M, {i: (L[i], X[i]) for i in range(nn)}, flags, force, steps)

def compare(env, M, nodes, flags, force, steps):
    "tables after a build against label, coordinates, flags and loads given for the nodes"
    ids = list(nodes)
    L = {i: nodes[i][0] for i in ids}
    nn = len(ids)
    rank = {i: sum(1 for j in ids if j != i and env.truth(L[j] < L[i])) for i in ids}
    rows = sorted(ids, key=lambda i: rank[i])
    env.eq(M.Nodes.labels, [L[i] for i in rows], "node labels in ascending order")
    env.eq(M.Nodes.coords, [nodes[i][1] for i in rows], "coordinates row by row")
    env.eq(M.Boundaries.Unodes, [L[i] for i in rows], "labels of the boundaries")
    want = [flags.get(i, [1, 1, 1]) for i in rows]
    env.eq(M.Boundaries.Uvalues, want, "boundary flags row by row")
    env.eq(M.ExtForces.nodes, [L[i] for i in rows], "labels of the external forces")
    env.eq(M.ExtForces.forces, [force.get(i, [0.0] * (3 * steps)) for i in rows], "external forces row by row")
    flat = [f for r in want for f in r]
    free = [d for d in range(3 * nn) if env.truth(flat[d] == 1)]
    lock = [d for d in range(3 * nn) if not env.truth(flat[d] == 1)]
    env.eq(M.Analysis.DOF1, free, "free degrees of freedom")
    env.eq(M.Analysis.DOF0, lock, "locked degrees of freedom")
    env.eq([len(M.Analysis.Ured), M.Analysis.U.shape[0], M.Analysis.U.shape[1]], [len(free), nn, 3], "sizes of the displacement tables")
    env.observe("t", [M.Nodes.labels, M.Nodes.coords, M.Boundaries.Uvalues, M.ExtForces.forces])

def edited(env, nedits, ops, bsub, fsub, lo=-BIG, hi=BIG):
    """a built model is edited and built again: the tables are those of a model defined
    that way at once"""
    L = labels(env, 4, lo, hi, "n")
    X = [vec(env, "X%d" % i) for i in range(4)]
    tp, M = new_model(env)
    nodes = {i: (L[i], X[i]) for i in (2, 0, 1)}
    flags, force = {}, {}
    for i in nodes: M.Nodes.add_node(L[i], coord=tuple(X[i]))
    M.Elements.add_element(1, conn=(L[0], L[1]), mprop=[1.0], gprop=[1.0, 0.625])
    bs, fs = env.choice("bounds", bsub), env.choice("forces", fsub)
    fl = lambda i, k: [env.int("b%d_%d" % (i, k), 0, 1), 0, 1]
    def add_b(i, k): flags[i] = fl(i, k); M.Boundaries.add_bound_U(L[i], tuple(flags[i]))
    def add_f(i, k): force[i] = vec(env, "f%d_%d_" % (i, k), 3); M.ExtForces.add_force(L[i], tuple(force[i]))
    for i in bs: add_b(i, 0)
    for i in fs: add_f(i, 0)
    M.build()
    for k in range(1, nedits + 1):
        op, i = env.choice("op%d" % k, ops)
        if op in "bf" and i not in nodes: continue
        if op == "b":
            if i in flags: M.Boundaries.del_bound_U(L[i]); env.cover("replaced")
            else: env.cover("boundary-of-a-free-node")
            add_b(i, k)
        elif op == "f":
            if i in force: M.ExtForces.del_force(L[i])
            else: env.cover("load-of-an-unloaded-node")
            add_f(i, k)
        elif op == "delb" and i in flags: M.Boundaries.del_bound_U(L[i]); del flags[i]
        elif op == "delf" and i in force and len(force) > 1: M.ExtForces.del_force(L[i]); del force[i]
        elif op == "node" and i not in nodes: M.Nodes.add_node(L[i], coord=tuple(X[i])); nodes[i] = (L[i], X[i]); env.cover("node-added")
        elif op == "deln" and i in nodes:
            if i in flags: M.Boundaries.del_bound_U(L[i]); del flags[i]
            if i in force:
                if len(force) == 1: raise Stop("no load left")
                M.ExtForces.del_force(L[i]); del force[i]
            M.Nodes.del_node(L[i]); del nodes[i]; env.cover("node-deleted")
        elif op == "build": M.build()
    M.build()
    compare(env, M, nodes, flags, force, 1)

P4 = [[0, 1, 2, 3], [3, 2, 1, 0], [2, 0, 3, 1], [1, 3, 0, 2]]
SCENARIOS = [
    Scn("three-nodes", tables, nn=3, bsub=[[], [2], [1, 0], [0, 1, 2]], fsub=[[1], [2, 0], [2, 1, 0]], symflags=0, bounds="3 nodes, labels -10^12..10^12 in every relative order, every definition order, 4 subsets of boundaries and 3 of forces; coordinates and forces arbitrary"),
    Scn("flags", tables, nn=2, bsub=[[0], [1, 0]], fsub=[[1]], symflags=3, bounds="2 nodes, every combination of the 6 boundary flags"),
    Scn("steps", tables, nn=3, bsub=[[1]], fsub=[[0], [2, 1]], steps=3, symflags=0, nperm=[[0, 1, 2], [2, 0, 1]], bounds="loads of 3 steps"),
    Scn("four-nodes", tables, nn=4, bsub=[[3, 0]], fsub=[[1, 3]], symflags=1, nperm=P4[:2], bounds="4 nodes, every relative order of the labels"),
    Scn("build-edit-build", tables, nn=3, bsub=[[], [2, 0], [0, 1, 2]], fsub=[[1], [2, 0]], symflags=0, nperm=[[0, 1, 2], [1, 0, 2]], rebuild=1, covers=("rebuilt",), bounds="a node with its boundary and load is added after a first build"),
    Scn("lists-of-objects", tables, nn=3, bsub=[[1, 0]], fsub=[[2, 0]], symflags=0, nperm=[[0, 1, 2], [2, 1, 0]], objects=True, bounds="definition by lists of Node, Element, BoundaryU, ExternalForce objects"),
    Scn("many-nodes", tables, nn=12, labs=[[60, 100, 9, 10, -4, 7, 11, 1000, 99, -40, 101, 2], [12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1], [70000, 3, 2**33, 1, -2**40, 32768, 65536, 65535, 32767, 256, 255, -1]], bsub=[[11, 3, 5, 0, 7], list(range(11, -1, -1))], fsub=[[1, 10, 4, 6], [9]], symflags=0, nperm=[[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11], [5, 3, 11, 0, 7, 2, 9, 4, 10, 1, 8, 6]], bounds="12 nodes with labels of different numbers of digits and signs"),
    Scn("after-another-model", tables, nn=3, bsub=[[], [2, 0]], fsub=[[1], [2, 0]], symflags=0, nperm=[[0, 1, 2], [2, 0, 1]], decoy=True, bounds="after another model with the same labels and one node more has been built and run"),
    Scn("negative-labels", tables, nn=2, bsub=[[1]], fsub=[[0]], symflags=1, lo=-5, hi=5, bounds="labels -5..5"),
    Scn("edits-of-a-built-model", edited, nedits=1, ops=[("b", 2), ("b", 0), ("f", 1), ("f", 0), ("delb", 0), ("delf", 0), ("node", 3), ("deln", 2)], bsub=[[], [0], [0, 2]], fsub=[[0], [0, 1]], covers=("boundary-of-a-free-node", "load-of-an-unloaded-node", "node-added", "node-deleted", "replaced"), bounds="3 nodes of a built model; a boundary or load is added, replaced or deleted, a node added or deleted; built again"),
    Scn("edits-of-a-built-model-long", edited, nedits=3, ops=[("b", 2), ("f", 1), ("delb", 0), ("node", 3), ("deln", 2), ("build", 0)], bsub=[[], [0, 2]], fsub=[[0], [0, 1]], bounds="the same with three edits, builds in between", tier="thorough"),
    Scn("five-nodes", tables, nn=5, bsub=[[3, 0, 4]], fsub=[[1, 3], [4]], symflags=0, nperm=[[0, 1, 2, 3, 4], [3, 1, 4, 0, 2]], bounds="5 nodes", tier="thorough"),
    Scn("four-nodes-all-orders", tables, nn=4, bsub=[[], [3, 0], [1, 2, 0, 3]], fsub=[[1, 3], [0]], symflags=0, bounds="4 nodes, all definition orders", tier="thorough"),
]
