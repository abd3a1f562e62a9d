"""C04: assembled residual and matrix = label-wise sum of closed form elements."""
from .common import *

def assembly(env, nn, conns, mats, dim=3, perm_n=None, perm_e=None, sym_el=True, stiff=True, delete=False, rebuild=False, loose=None, lab=None, decoy=False):
    nl = list(lab[0]) if lab else labels(env, nn + (loose is not None), -BIG, BIG, "n")
    ne = len(conns)
    el = list(lab[1]) if lab else labels(env, ne, -BIG, BIG, "e") if sym_el else list(range(1, ne + 1))
    Z = [0.0] * (3 - dim)
    # a node without elements, held in place
    LX, LF = (1.5, -2.0, 0.5), (3.0, 1.0, -2.0)
    X = [vec(env, "X%d" % i, dim) + Z for i in range(nn)]
    U = [vec(env, "U%d" % i, dim) + Z for i in range(nn)]
    els, st = [], []
    for k, (m, (a, b)) in enumerate(zip(mats, conns)):
        E, A = env.real("E%d" % k, pos=True), env.real("A%d" % k, pos=True)
        p = [E, 0.375, 0.0625] if m == 1 and 2 in mats else [E] if m == 1 else [E, env.real("K%d" % k, lo=0), env.real("Sy%d" % k, pos=True)]
        els.append(El(el[k], (nl[a], nl[b]), A, m, p))
        positive_lengths(env, X[a], X[b], U[a], U[b])
        st.append((env.real("sy%d" % k, pos=True), env.real("ep%d" % k)) if m == 2 else (0.0, 0.0))
    pn = env.choice("perm_n", perm_n or [list(range(nn))])
    pe = env.choice("perm_e", perm_e or [list(range(ne))])
    fo = [vec(env, "f%d" % i, dim) + Z for i in range(nn)]
    free = (1,) * dim + (0,) * (3 - dim)
    # the order in which the labels are sorted
    na = len(nl)
    rank = [sum(1 for j in range(na) if j != i and env.truth(nl[j] < nl[i])) for i in range(na)]
    allrank = sorted(range(na), key=lambda i: rank[i])
    byrank = [i for i in allrank if i < nn]
    lpf = env.real("lpf")
    def build(M):
        nodes, bounds, forces = [(nl[i], tuple(X[i])) for i in pn], [(nl[i], free) for i in reversed(pn)], [(nl[i], tuple(fo[i])) for i in pn[1:] + pn[:1]]
        if loose is not None:
            nodes.insert(loose, (nl[nn], LX)); bounds.insert(1, (nl[nn], (0, 0, 0))); forces.insert(2, (nl[nn], LF))
        define(M, nodes, [els[k] for k in pe], bounds, forces)
        if delete:
            extra = env.int("extra", -BIG, BIG)
            for k in range(ne): env.assume(extra != el[k])
            M.Elements.add_element(extra, conn=(nl[0], nl[1]), mat_type=1, mprop=[7.0] + [0.0] * (len(els[0].mprop) - 1), gprop=[3.0, 0.625])
            if ne > 1:
                k = pe[0]
                e = els[k]
                M.Elements.del_element(e.label)
                M.Elements.add_element(e.label, conn=e.conn, mat_type=e.mtype, mprop=list(e.mprop), gprop=[e.A, 0.625])
            M.Elements.del_element(extra)
        if rebuild: M.build()
    def fn(F, J, x, M):
        if 2 in mats:
            order = [k for k in (pe[1:] + pe[:1] if delete and ne > 1 else pe)]
            for row, k in enumerate(order): M.Analysis.state_v[row] = list(st[k])
        xs = [U[i][k] for i in byrank for k in range(dim)] + [lpf]
        Fv = F(xs)
        R = [[0, 0, 0] for _ in range(nn)]
        Kb = {}
        for k, (a, b) in enumerate(conns):
            e = els[k]
            if e.mtype == 1: law = lambda s, E=e.mprop[0]: (E * s, 0, 0, E)
            else: law = isotropic(env, e.mprop[0], e.mprop[1], st[k][0], st[k][1])
            tang = []
            def so(s):
                r = law(s); tang.append(r[3]); return r[0]
            lam, s, N, f = force_of(env, X[a], X[b], U[a], U[b], so, e.A)
            R[a], R[b] = sub(R[a], f), add(R[b], f)
            if stiff:
                dX, dx = sub(X[b], X[a]), sub(add(X[b], U[b]), add(X[a], U[a]))
                L, l = norm(env, dX), norm(env, dx)
                n = [c / l for c in dx]
                for i in range(dim):
                    for j in range(dim):
                        v = tang[0] * e.A / L * n[i] * n[j] + N / l * ((1 if i == j else 0) - n[i] * n[j])
                        for p, q, sg in ((a, a, 1), (b, b, 1), (a, b, -1), (b, a, -1)):
                            Kb[p, q, i, j] = Kb.get((p, q, i, j), 0) + sg * v
        env.eq(M.Analysis.r, [R[i] if i < nn else [0, 0, 0] for i in allrank], "internal forces")
        want = [R[i][k] - lpf * fo[i][k] for i in byrank for k in range(dim)]
        env.eq([Fv[i] for i in range(nn * dim)], want, "residual")
        if stiff:
            Kf = J(xs)
            n = nn * dim
            want = [[Kb.get((p, q, i, j), 0.0) for q in byrank for j in range(dim)] for p in byrank for i in range(dim)]
            env.eq([[Kf[i, j] for j in range(n)] for i in range(n)], want, "stiffness")
            env.observe("K", Kf)
        env.observe("F", Fv)
    probe(env, build, fn, decoy=decoy)

P3 = [[0, 1, 2], [2, 1, 0], [1, 2, 0]]
# 3 x 4 nodes, rows, columns and some diagonals
GRID = [(3 * r + c, 3 * r + c + 1) for r in range(4) for c in range(2)] + [(3 * r + c + 3, 3 * r + c) for r in range(3) for c in range(3)] + [(0, 4), (8, 4), (10, 8)]
GL = ([17, 4, 300, 9, 41000, 2, 8, 70001, 33, 1, 12, 5], [40, 3, 7, 1, 99, 12, 70000, 5, 21, 22, 2, 30, 11, 6, 4, 8, 33000, 10, 9, 50])
SHUFFLE = lambda n: sorted(range(n), key=lambda i: i * 7 % 13 + i / 1000)
BIGGRID = [(8 * r + c, 8 * r + c + 1) for r in range(5) for c in range(7)] + [(8 * r + c + 8, 8 * r + c) for r in range(4) for c in range(8)] + [(8 * r + c, 8 * r + c + 9) for r in range(4) for c in range(7)] + [(c, 39 - c) for c in range(12)]
SCENARIOS = [
    Scn("grid", assembly, bounds="12 nodes and 20 elements in the plane, scattered labels", nn=12, conns=GRID, mats=[1] * 20, dim=2, lab=GL, perm_n=[SHUFFLE(12)], perm_e=[SHUFFLE(20)]),
    Scn("grid-space", assembly, bounds="the same in space", nn=12, conns=GRID, mats=[1] * 20, dim=3, lab=GL, perm_n=[SHUFFLE(12)], perm_e=[SHUFFLE(20)], stiff=False),
    Scn("big-grid", assembly, bounds="40 nodes and 107 elements in the plane", nn=40, conns=BIGGRID, mats=[1] * len(BIGGRID), dim=2, lab=(SHUFFLE(40), SHUFFLE(len(BIGGRID))), stiff=False),
    Scn("two-elements", assembly, bounds="2 elements of both materials on 3 nodes in the plane, labels -10^12..10^12 of nodes and elements in every relative order, 3 node and 2 element definition orders", nn=3, conns=[(0, 1), (2, 1)], mats=[1, 2], dim=2, perm_n=P3, perm_e=[[0, 1], [1, 0]]),
    Scn("after-another-model", assembly, bounds="another model with the same labels in other rows has been run before; 2 elements of both materials on 3 nodes in the plane", nn=3, conns=[(0, 1), (2, 1)], mats=[1, 2], dim=2, perm_n=P3[:2], decoy=True),
    Scn("parallel", assembly, bounds="3 elements, two of them between the same nodes in opposite directions, in space", nn=3, conns=[(0, 1), (1, 0), (1, 2)], mats=[1, 1, 1], dim=3, perm_e=[[0, 1, 2], [2, 1, 0]], sym_el=False),
    Scn("star", assembly, bounds="3 elements at one node, 4 nodes, internal forces and matrix, in the plane", nn=4, conns=[(0, 1), (2, 0), (0, 3)], mats=[1, 1, 1], dim=2, perm_n=[[0, 1, 2, 3], [3, 1, 0, 2]], sym_el=False),
    Scn("edited", assembly, bounds="as two-elements, after deleting and re-adding elements", nn=3, conns=[(0, 1), (2, 1)], mats=[1, 2], dim=2, perm_e=[[0, 1], [1, 0]], delete=True),
    Scn("loose-node", assembly, bounds="an element and a node that belongs to no element, in the plane; labels -10^12..10^12 in every relative order; two places in the definition order", nn=2, conns=[(1, 0)], mats=[1], dim=2, perm_n=[[0, 1], [1, 0]], sym_el=False, loose=0),
    Scn("loose-node-mixed", assembly, bounds="two-elements with a node that belongs to no element", nn=3, conns=[(0, 1), (2, 1)], mats=[2, 1], dim=2, perm_n=P3[1:], sym_el=False, loose=2),
    Scn("six-elements", assembly, bounds="complete graph of 4 nodes in space, 6 elements", nn=4, conns=[(0, 1), (2, 0), (0, 3), (1, 2), (3, 1), (2, 3)], mats=[1] * 6, dim=3, perm_n=[[0, 1, 2, 3], [2, 0, 3, 1]], perm_e=[[0, 1, 2, 3, 4, 5], [5, 2, 0, 4, 1, 3]], sym_el=False, tier="thorough", path_limit=600),
    Scn("three-plastic", assembly, bounds="3 elastic-plastic elements with their own histories on 3 nodes", nn=3, conns=[(0, 1), (2, 1), (2, 0)], mats=[2, 2, 2], dim=2, perm_n=P3, perm_e=[[0, 1, 2], [2, 0, 1]], tier="thorough", path_limit=600),
]
