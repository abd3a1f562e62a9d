"""C16: the tables behave as label-keyed maps under edit histories."""
from .common import *

def rowof(env, table, L):
    "row number of each of the labels L in the label table (-1: missing); also checks for strangers"
    out, used = [], set()
    for l in L:
        r = [i for i in range(len(table)) if env.truth(table[i] == l)]
        env.check(len(r) <= 1, "label listed more than once")
        out.append(r[0] if r else -1)
    return out

# ---------------------------------------------------------------- elements
def ekinds(nl, multi):
    "edit operations: (name, which labels)"
    sel = [[i] for i in range(nl)] + ([[0, 1], [1, 0], "all"] if multi else [])
    ops = [("del", [i]) for i in range(nl)] + [("add", [i]) for i in range(nl)]
    for k in ("mat", "mat3", "matt", "geo", "geos", "etype", "mtype"):
        for s in sel: ops.append((k, s))
    return ops

def elements(env, nl, nstart, nops, multi=True, ints=True, ops=None):
    L = labels(env, nl, -BIG, BIG, "e")
    tp, M = new_model(env)
    T = M.Elements
    ref = {}
    npar = 1
    def add(i, t):
        nonlocal npar
        c = (env.int("ca%d_%s" % (i, t), -BIG, BIG), env.int("cb%d_%s" % (i, t), -BIG, BIG))
        mp = [(1 + i if ints and t == "s" else env.real("E%d_%s" % (i, t)))] + [0.0] * (npar - 1)
        gp = [2 + i if ints and t == "s" else env.real("A%d_%s" % (i, t))]
        et, mt = env.int("et%d_%s" % (i, t), 1, 3), env.int("mt%d_%s" % (i, t), 1, 2)
        if env.flag("kw%d_%s" % (i, t)) if t != "s" else i % 2: T.add_element(L[i], conn=c, elem_type=et, mat_type=mt, material_properties=mp, geometric_properties=gp)
        else: T.add_element(L[i], conn=c, elem_type=et, mat_type=mt, mprop=mp, gprop=gp)
        ref[i] = dict(conn=list(c), et=et, mt=mt, mp=mp, gp=gp)
    for i in range(nstart): add(i, "s")
    def verify(when):
        n = len(T.labels)
        env.check(n == len(ref), "number of elements " + when)
        for name in ("conns", "elem_type", "mat_type", "material_properties", "geometric_properties"):
            env.check(len(getattr(T, name)) == n, "rows of %s %s" % (name, when))
        rows = rowof(env, T.labels, L)
        for i in range(nl):
            if i not in ref:
                env.check(rows[i] < 0, "deleted element is still there " + when)
                continue
            env.check(rows[i] >= 0, "element is missing " + when)
            if rows[i] < 0: continue
            d, l = ref[i], L[i]
            env.eq(T.conns[rows[i]], d["conn"], "end nodes in the table " + when)
            env.eq(T.get_nodes(l), d["conn"], "end nodes " + when)
            env.eq([T.NA(l), T.NE(l)], d["conn"], "begin and end node " + when)
            env.eq(T.elem_type[rows[i]], d["et"], "element type in the table " + when)
            env.eq(T.get_element_type(l), d["et"], "element type " + when)
            env.eq(T.mat_type[rows[i]], d["mt"], "material type in the table " + when)
            env.eq(T.get_material_type(l), d["mt"], "material type " + when)
            w = T.material_properties.shape[1]
            env.check(w >= len(d["mp"]), "all material parameters are kept " + when)
            env.eq(T.get_material_properties(l), d["mp"] + [0.0] * (w - len(d["mp"])), "material parameters " + when)
            env.eq(T.material_properties[rows[i]], d["mp"] + [0.0] * (w - len(d["mp"])), "material parameters in the table " + when)
            env.eq(T.get_geometric_properties(l), d["gp"], "geometric parameters " + when)
            env.eq(T.geometric_properties[rows[i]], d["gp"], "geometric parameters in the table " + when)
        env.observe("t", [T.labels, T.conns, T.elem_type, T.mat_type, T.material_properties, T.geometric_properties])
    verify("after adding")
    all_ops = ops or ekinds(nl, multi)
    for q in range(nops):
        op, sel = env.choice("op%d" % q, all_ops)
        t = str(q)
        present = sorted(ref)
        if sel == "all":
            who, arg = present, "all"
        else:
            if op == "add":
                if sel[0] in ref: raise Stop("already there")
                if present:
                    w = T.material_properties.shape[1]
                    npar = w
                add(sel[0], t)
                verify("after adding another one")
                continue
            if op != "del" and any(i not in ref for i in sel): raise Stop("not there")
            who, arg = sel, [L[i] for i in sel]
        when = "after %s" % {"mat": "assigning material", "mat3": "assigning material with three parameters", "matt": "assigning material and its type", "geo": "assigning geometry", "geos": "assigning geometries", "etype": "assigning element types", "mtype": "assigning material types", "del": "deleting"}[op]
        if op == "del":
            T.del_element(arg[0])
            ref.pop(sel[0], None)
        elif op in ("mat", "matt", "mat3"):
            mp = [env.real("m%d_%s" % (k, t)) for k in range({"mat": 1, "matt": 2, "mat3": 3}[op])]
            if op == "matt":
                mt = env.int("mt_" + t, 1, 2)
                T.assign_material(arg, list(mp), mt)
                for i in who: ref[i]["mt"] = mt
            else: T.assign_material(arg, list(mp))
            for i in who: ref[i]["mp"] = mp
        elif op == "geo":
            g = [env.real("g_" + t)]
            T.assign_geometry(arg, list(g))
            for i in who: ref[i]["gp"] = g
        elif op == "geos":
            order = who if arg != "all" else None
            gs = [[env.real("g%d_%s" % (k, t))] for k in range(len(who))]
            if arg == "all":
                rows = rowof(env, T.labels, L)
                who = sorted(who, key=lambda i: rows[i])
            T.assign_geometries(arg, [list(g) for g in gs])
            for i, g in zip(who, gs): ref[i]["gp"] = g
        elif op == "etype":
            v = env.int("ve_" + t, 1, 3); T.assign_etype(arg, v)
            for i in who: ref[i]["et"] = v
        elif op == "mtype":
            v = env.int("vm_" + t, 1, 2); T.assign_mtype(arg, v)
            for i in who: ref[i]["mt"] = v
        verify(when)

# ---------------------------------------------------------------- nodes, boundaries, forces
def simple(env, what, nl, nstart, nops, width=3, build=False):
    L = labels(env, nl, -BIG, BIG, "n")
    tp, M = new_model(env)
    ref = {}
    if what == "nodes":
        T, lab, val = M.Nodes, "labels", "coords"
        put = lambda l, v: M.Nodes.add_node(l, coord=tuple(v)); rem = M.Nodes.del_node
    elif what == "bounds":
        T, lab, val = M.Boundaries, "Unodes", "Uvalues"
        put = lambda l, v: M.Boundaries.add_bound_U(l, tuple(v)); rem = M.Boundaries.del_bound_U
    else:
        T, lab, val = M.ExtForces, "nodes", "forces"
        put = lambda l, v: M.ExtForces.add_force(l, tuple(v)); rem = M.ExtForces.del_force
    def value(i, t):
        if what == "bounds": return [env.int("b%d_%s_%d" % (i, t, k), 0, 1) for k in range(3)]
        if t == "s": return [i + 1 + k for k in range(width)]          # integers first
        return vec(env, "v%d_%s_" % (i, t), width)
    def verify(when):
        tl, tv = getattr(T, lab), getattr(T, val)
        env.check(len(tl) == len(ref) and len(tv) == len(ref), "number of rows " + when)
        rows = rowof(env, tl, L)
        for i in range(nl):
            env.check((rows[i] >= 0) == (i in ref), "%s %s" % ("missing" if i in ref else "still there", when))
            if i in ref and rows[i] >= 0: env.eq(tv[rows[i]], ref[i], "data of a label " + when)
        env.observe("t", [tl, tv])
    for i in range(nstart):
        v = value(i, "s"); put(L[i], v); ref[i] = v
    verify("after adding")
    for q in range(nops):
        op, i = env.choice("op%d" % q, [(o, k) for o in ("add", "del") for k in range(nl)])
        if op == "add":
            if i in ref: raise Stop("already there")
            v = value(i, str(q)); put(L[i], v); ref[i] = v
        else:
            rem(L[i]); ref.pop(i, None)
        verify("after adding another one" if op == "add" else "after deleting")

def constructors(env):
    "material and geometric parameters by either keyword; both at once are refused"
    tp, M = new_model(env)
    E, A, B = env.real("E"), env.real("A"), env.real("B")
    e = tp.core.Element(env.int("l", -BIG, BIG), conn=(1, 2), material_properties=[E, B], geometric_properties=[A])
    env.eq(e.material_properties, [E, B], "material parameters"); env.eq(e.geometric_properties, [A], "geometric parameters")
    e = tp.core.Element(1, conn=(1, 2), mprop=[E], gprop=[A, B])
    env.eq(e.material_properties, [E], "material parameters"); env.eq(e.geometric_properties, [A, B], "geometric parameters")
    env.eq([e.elem_type, e.mat_type], [1, 1], "default types")
    for k in (dict(material_properties=[E], mprop=[E]), dict(geometric_properties=[A], gprop=[A])):
        try: tp.core.Element(1, conn=(1, 2), **k)
        except TypeError: pass
        else: env.check(False, "both keywords are accepted")

def many(env, n=12):
    "many elements: deletions, additions and assignments to several of them"
    L = labels(env, n + 1, -BIG, BIG, "e")
    tp, M = new_model(env)
    T, ref = M.Elements, {}
    def add(i, w=1):
        c, mp, gp = [i + 1, i + 2], [env.real("E%d" % i)] + [0.0] * (w - 1), [env.real("A%d" % i), 0.625]
        T.add_element(L[i], conn=tuple(c), mat_type=1 + i % 2, mprop=mp, gprop=gp)
        ref[i] = dict(conn=c, mp=mp, gp=gp, mt=1 + i % 2, et=1)
    for i in range(n): add(i)
    def verify(when):
        rows = rowof(env, T.labels, L)
        env.check(len(T.labels) == len(ref), "number of elements " + when)
        for i in range(n + 1):
            env.check((rows[i] >= 0) == (i in ref), "%s %s" % ("element is missing" if i in ref else "deleted element is still there", when))
            if i not in ref or rows[i] < 0: continue
            d, l = ref[i], L[i]
            w = T.material_properties.shape[1]
            env.eq([T.conns[rows[i]], T.get_nodes(l)], [d["conn"]] * 2, "end nodes " + when)
            env.eq([T.mat_type[rows[i]], T.get_material_type(l), T.elem_type[rows[i]], T.get_element_type(l)], [d["mt"], d["mt"], d["et"], d["et"]], "types " + when)
            env.eq([T.material_properties[rows[i]], T.get_material_properties(l)], [d["mp"] + [0.0] * (w - len(d["mp"]))] * 2, "material parameters " + when)
            env.eq([T.geometric_properties[rows[i]], T.get_geometric_properties(l)], [d["gp"]] * 2, "geometric parameters " + when)
    verify("after adding")
    for i in (n - 1, 0, n // 2): T.del_element(L[i]); del ref[i]
    verify("after deleting")
    add(n)
    who = [i for i in range(1, n) if i in ref and i % 3 != 2][::-1]
    gs = [[env.real("g%d" % i), 0.5] for i in who]
    T.assign_geometries([L[i] for i in who], [list(g) for g in gs])
    for i, g in zip(who, gs): ref[i]["gp"] = g
    m = [env.real("m%d" % k) for k in range(3)]
    who = [i for i in range(1, n) if i in ref and i % 2] + [n]
    T.assign_material([L[i] for i in who], list(m), 2)
    for i in who: ref[i].update(mp=m, mt=2)
    T.assign_etype([L[i] for i in who[:3]], 3)
    for i in who[:3]: ref[i]["et"] = 3
    verify("after assigning to several elements")
    add(n // 2, 3)
    T.assign_mtype("all", 1); T.assign_geometry([L[n // 2], L[1]], [gs[0][0], 0.25])
    for i in ref: ref[i]["mt"] = 1
    for i in (n // 2, 1): ref[i]["gp"] = [gs[0][0], 0.25]
    verify("after assigning to all")
    for i in sorted(ref): T.del_element(L[i]); del ref[i]; verify("after deleting one after the other")

def manynodes(env, n=12):
    "many nodes, boundaries and loads: deletions and additions"
    tp, M = new_model(env)
    L = labels(env, n, -BIG, BIG, "n")
    N, B, F = {}, {}, {}
    def verify(when):
        for what, tl, tv, ref in (("node", M.Nodes.labels, M.Nodes.coords, N), ("boundary", M.Boundaries.Unodes, M.Boundaries.Uvalues, B), ("force", M.ExtForces.nodes, M.ExtForces.forces, F)):
            env.check(len(tl) == len(ref) and len(tv) == len(ref), "number of rows %s: %s" % (when, what))
            rows = rowof(env, tl, L)
            for i in range(n):
                env.check((rows[i] >= 0) == (i in ref), "%s %s %s" % (what, "missing" if i in ref else "still there", when))
                if i in ref and rows[i] >= 0: env.eq(tv[rows[i]], ref[i], "data of a %s %s" % (what, when))
    def add(i, t):
        N[i], F[i], B[i] = vec(env, "X%d_%s" % (i, t)), vec(env, "f%d_%s" % (i, t)), [1, i % 2, 0]
        M.Nodes.add_node(L[i], coord=tuple(N[i])); M.Boundaries.add_bound_U(L[i], tuple(B[i])); M.ExtForces.add_force(L[i], tuple(F[i]))
    def rem(*which):
        for i in which:
            M.Nodes.del_node(L[i]); M.Boundaries.del_bound_U(L[i]); M.ExtForces.del_force(L[i])
            del N[i], B[i], F[i]
    for i in range(n): add(i, "s")
    verify("after adding")
    rem(n - 1, 0, n // 2); verify("after deleting")
    add(0, "t"); add(n // 2, "t"); verify("after adding again")
    for i in sorted(N): rem(i); verify("after deleting one after the other")

def twins(env):
    "two models edited in alternation do not see each other"
    L = labels(env, 3, -BIG, BIG, "n")
    tp, A = new_model(env)
    B = tp.Model(log=0)
    e = [[env.real("E%d%d" % (m, i)) for i in range(2)] for m in range(2)]
    x = [[vec(env, "X%d%d" % (m, i)) for i in range(3)] for m in range(2)]
    for i in range(3):
        for m, M in enumerate((A, B)):
            M.Nodes.add_node(L[i], coord=tuple(x[m][i])); M.Boundaries.add_bound_U(L[i], (m, 1, i % 2)); M.ExtForces.add_force(L[i], tuple(x[1 - m][i]))
            if i < 2: M.Elements.add_element(L[i], conn=(L[i], L[i + 1]), mprop=[e[m][i]], gprop=[1.0 + m])
    A.Nodes.del_node(L[1]); B.Boundaries.del_bound_U(L[0]); A.ExtForces.del_force(L[2]); B.Elements.del_element(L[0])
    A.Elements.assign_material("all", [e[1][0], 2.0]); B.Elements.assign_geometry("all", [7.0])
    for m, (M, n, b, f, el) in enumerate(((A, (0, 2), (0, 1, 2), (0, 1), (0, 1)), (B, (0, 1, 2), (1, 2), (0, 1, 2), (1,)))):
        env.eq(M.Nodes.labels, [L[i] for i in n], "labels of the nodes"); env.eq(M.Nodes.coords, [x[m][i] for i in n], "coordinates")
        env.eq(M.Boundaries.Unodes, [L[i] for i in b], "labels of the boundaries"); env.eq(M.Boundaries.Uvalues, [[m, 1, i % 2] for i in b], "flags")
        env.eq(M.ExtForces.nodes, [L[i] for i in f], "labels of the forces"); env.eq(M.ExtForces.forces, [x[1 - m][i] for i in f], "forces")
        env.eq(M.Elements.labels, [L[i] for i in el], "labels of the elements"); env.eq(M.Elements.conns, [[L[i], L[i + 1]] for i in el], "end nodes")
        env.eq(M.Elements.material_properties, [[e[1][0], 2.0] if m == 0 else [e[1][i]] for i in el], "material parameters")
        env.eq(M.Elements.geometric_properties, [[1.0] if m == 0 else [7.0] for i in el], "geometric parameters")

class Oops(Exception): pass

def blocks(env):
    "definitions in with-blocks are definitions of the model; errors inside a block come out"
    tp, M = new_model(env)
    L = labels(env, 3, -BIG, BIG, "n")
    X, F = [vec(env, "X%d" % i) for i in range(3)], [vec(env, "f%d" % i) for i in range(2)]
    E, A = env.real("E"), env.real("A")
    fl = [env.int("b%d" % k, 0, 1) for k in range(3)]
    bad = env.choice("bad", [None, 0, 1, 2, 3])
    def block(k, H, first, second):
        try:
            with H as h:
                first(h)
                if bad == k: raise Oops()
                second(h)
        except Oops: env.check(bad == k, "error without a cause")
        else: env.check(bad != k, "an error inside a with-block is lost")
    block(0, M.Nodes, lambda h: (h.add_node(L[0], coord=tuple(X[0])), h.add_node(L[1], coord=tuple(X[1]))), lambda h: (h.add_node(L[2], coord=tuple(X[2])), h.del_node(L[0])))
    block(1, M.Elements, lambda h: h.add_element(1, conn=(L[1], L[2]), mprop=[E], gprop=[A]), lambda h: h.assign_material([1], [E + 1]))
    block(2, M.Boundaries, lambda h: h.add_bound_U(L[1], tuple(fl)), lambda h: h.add_bound_U(L[2], (0, 0, 1)))
    block(3, M.ExtForces, lambda h: h.add_force(L[1], tuple(F[0])), lambda h: h.add_force(L[2], tuple(F[1])))
    env.eq(M.Nodes.labels, [L[0], L[1]] if bad == 0 else [L[1], L[2]], "labels of the nodes")
    env.eq(M.Nodes.coords, [X[0], X[1]] if bad == 0 else [X[1], X[2]], "coordinates")
    env.eq(M.Elements.conns, [[L[1], L[2]]], "end nodes"); env.eq(M.Elements.material_properties, [[E if bad == 1 else E + 1]], "material parameters")
    env.eq(M.Boundaries.Unodes, [L[1]] + ([] if bad == 2 else [L[2]]), "labels of the boundaries")
    env.eq(M.Boundaries.Uvalues, [fl] + ([] if bad == 2 else [[0, 0, 1]]), "flags")
    env.eq(M.ExtForces.nodes, [L[1]] + ([] if bad == 3 else [L[2]]), "labels of the forces")
    env.eq(M.ExtForces.forces, [F[0]] + ([] if bad == 3 else [F[1]]), "forces")

SCENARIOS = [
    Scn("elements-two-edits", elements, nl=3, nstart=2, nops=2, bounds="3 labels (-10^12..10^12), 2 elements to start with (integer parameters), every sequence of 2 edits: add, delete, assign material with 1..3 parameters with or without type, geometry, geometries, element type, material type to one, two or all elements; all values arbitrary"),
    Scn("elements-three-edits", elements, nl=3, nstart=2, nops=3, multi=False, ops=[("del", [0]), ("del", [1]), ("add", [2]), ("add", [0]), ("mat3", [0]), ("matt", "all"), ("mat", [1]), ("geo", [2]), ("mtype", [2])], bounds="every sequence of 3 edits out of 9"),
    Scn("nodes", simple, what="nodes", nl=3, nstart=2, nops=3, bounds="3 labels, 2 nodes to start with (integer coordinates), every sequence of 3 additions and deletions"),
    Scn("boundaries", simple, what="bounds", nl=3, nstart=2, nops=3, bounds="the same for boundaries"),
    Scn("forces", simple, what="forces", nl=3, nstart=2, nops=3, bounds="the same for external forces"),
    Scn("forces-two-steps", simple, what="forces", nl=2, nstart=1, nops=3, width=6, bounds="loads of two steps"),
    Scn("many-elements", many, bounds="12 elements with arbitrary labels; deleted, added and assigned several at a time"),
    Scn("many-nodes", manynodes, bounds="12 nodes, boundaries and loads with arbitrary labels, deleted and added"),
    Scn("two-models", twins, bounds="two models edited in alternation; labels, coordinates, parameters, loads arbitrary"),
    Scn("with-blocks", blocks, bounds="definitions in with-blocks, with an error inside any one of them; labels, coordinates, parameters, flags, loads arbitrary"),
    Scn("constructors", constructors, bounds="Element objects"),
    Scn("elements-three-all", elements, nl=3, nstart=2, nops=3, bounds="every sequence of 3 edits", tier="thorough"),
    Scn("elements-four", elements, nl=4, nstart=3, nops=4, multi=False, ops=[("del", [0]), ("del", [2]), ("add", [3]), ("add", [0]), ("mat3", [1]), ("matt", "all"), ("mat", [0]), ("geo", "all"), ("geos", [1, 0]), ("mtype", [3]), ("etype", [2])], bounds="every sequence of 4 edits out of 11", tier="thorough"),
    Scn("nodes-long", simple, what="nodes", nl=4, nstart=2, nops=4, bounds="4 labels, sequences of 4 edits", tier="thorough"),
    Scn("boundaries-long", simple, what="bounds", nl=4, nstart=1, nops=4, bounds="the same for boundaries", tier="thorough"),
]
