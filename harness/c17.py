"""C17: building and running again gives the same and leaves the definition intact."""
from .runs import *

def defs(M):
    E = M.Elements
    return [("element labels", E.labels.copy()), ("end nodes", E.conns.copy()), ("element types", E.elem_type.copy()), ("material types", E.mat_type.copy()),
            ("material parameters", E.material_properties.copy()), ("geometric parameters", E.geometric_properties.copy())]

def by_label(env, labs, vals, want, msg):
    for l, v in want:
        r = [i for i in range(len(labs)) if env.truth(labs[i] == l)]
        env.check(len(r) == 1, msg + ": one row per label")
        if r: env.eq(vals[r[0]], v, msg)

def again(env, mats=(2,), steps=1, incs=1, ncalls=2, cycl=2, two=False, other=False, jfix=True, fail=True, third=False, ndof=1, log=0, step=False, geo="unit"):
    n = ndof + 1
    box = {"k": 0, "handed": []}
    if geo == "any": X = {1: vec(env, "Xa"), 2: vec(env, "Xb")}
    else:
        a = vec(env, "Xa")
        X = {1: a, 2: add(a, [1.0, 0.0, 0.0])}
    npar = 3 if 2 in mats else 1
    mp = [[env.real("E%d" % k, pos=True) if m == 1 else 8.0] + ([4.0, 1.0 + k] if m == 2 else [0.375, 0.0625][:npar - 1]) for k, m in enumerate(mats)]
    ga = [env.real("A%d" % k, pos=True) for k in range(len(mats))]
    f = [env.real("f%d" % c) for c in range(3 * steps)]
    na, nb = labels(env, 2, -BIG, BIG, "n")
    fl = (1, 1 if ndof > 1 else 0, 0)
    D = [sub(X[2], X[1])]
    if geo == "any": env.assume(norm(env, D[0]) > 0)
    def newton(F, J, x, nfev=8, ftol=1e-8, xtol=1e-8, verbose=0, *args):
        k = box["k"]; box["k"] += 1
        if k >= ncalls: raise Stop("bound on the number of solver calls")
        v = [env.real("u%d" % k, 0, 2)] + ([env.real("w%d" % k, 0, 2)] if ndof > 1 else []) + [env.real("l%d" % k, 0, 2)]
        dx = add(D[0], [v[0], v[1] if ndof > 1 else 0.0, 0.0])
        if geo == "any": env.assume(norm(env, dx) > 0)
        r, K = F(env.arr(v), *args), J(env.arr(v), *args)
        box["handed"].append([("start point", [x[i] for i in range(n)]), ("residual", [r[i] for i in range(n)]), ("matrix", [[K[i, j] for j in range(n)] for i in range(n)]), ("iteration limit and tolerances", [nfev, ftol, xtol])])
        ok = env.flag("ok%d" % k) if fail else True
        return env.arr(v), ok, 2, 0.0, 0.0
    def make(tp, M=None):
        M = M or tp.Model(log=log)
        M.Nodes.add_node(nb, coord=tuple(X[2])); M.Nodes.add_node(na, coord=tuple(X[1]))
        for k, m in enumerate(mats): M.Elements.add_element(5 - k, conn=(na, nb), mat_type=m, mprop=list(mp[k]), gprop=[ga[k], 0.625])
        M.Boundaries.add_bound_U(nb, fl); M.Boundaries.add_bound_U(na, (0, 0, 0))
        M.ExtForces.add_force(nb, tuple(f))
        S = M.Settings
        S.nsteps, S.incs, S.cycl, S.j_pre, S.j_fixed, S.j0, S.du, S.dlpf, S.dxtol, S.stepcontrol = steps, incs, cycl, False, jfix, 1 if jfix else None, 4.0, 4.0, 1.0, step
        return M
    def go(M):
        box["k"] = 0; box["handed"] = []
        M.build()
        env.check(len(M.Results.R) == 1, "one result after building")
        check_zero(env, M.Results.R[0], 2 in mats)
        env.eq(M.Analysis.U, [[0.0] * 3] * 2, "displacements after building")
        if 2 in mats: env.eq(M.Analysis.state_v, [[0.0, 0.0]] * len(mats), "history after building")
        env.check(len(M.Results.step_lpf_end) == 0, "no step has been run after building")
        M.run()
        return M.Results
    has2 = 2 in mats
    def snaps(Rs): return [[(a, b) for a, b in (snap(r, has2) if i else snap0(r, has2))] for i, r in enumerate(Rs.R)]
    def same(a, b, msg):
        env.check(len(a) == len(b), msg + ": number of results")
        for i, (p, q) in enumerate(zip(a, b)):
            for (nm, u), (_, v) in zip(p, q): env.eq(u, v, "%s: %s of result %d" % (msg, nm, i))
    def handed(h, msg):
        env.check(len(h) == len(h1), msg + ": number of solver calls")
        for k, (p, q) in enumerate(zip(h, h1)):
            for (nm, u), (_, v) in zip(p, q): env.eq(u, v, "%s: %s of solver call %d" % (msg, nm, k + 1))
    def intact(M, d0, when):
        for (nm, old), (_, new) in zip(d0, defs(M)): env.eq(new, old, "%s %s" % (nm, when))
        by_label(env, M.Nodes.labels, M.Nodes.coords, [(na, X[1]), (nb, X[2])], "node coordinates " + when)
        by_label(env, M.Boundaries.Unodes, M.Boundaries.Uvalues, [(nb, list(fl)), (na, [0, 0, 0])], "boundary flags " + when)
        by_label(env, M.ExtForces.nodes, M.ExtForces.forces, [(nb, list(f))], "external forces " + when)
        env.eq([M.Settings.nsteps, M.Settings.cycl, M.Settings.du, M.Settings.dlpf], [steps, cycl, 4.0, 4.0], "settings " + when)
    tp = env.load(with_newton(newton, box))
    M = make(tp)
    d0 = defs(M)
    R1 = go(M)
    s1, h1 = snaps(R1), box["handed"]
    env.cover("results%d" % (len(s1) - 1))
    intact(M, d0, "after building and running")
    env.observe("U", [r.U for r in R1.R])
    e1 = list(R1.step_lpf_end)
    if other: other_first(env, tp, lambda D: make(tp, D), box)
    if two:
        M2 = make(tp)
        R2 = go(M2)
        same(snaps(R2), s1, "another model with the same definition")
        intact(M, d0, "of the first model after running another one")
    R3 = go(M)
    env.check(R3 is not R1, "a second build starts a new set of results")
    same(snaps(R3), s1, "second build and run")
    handed(box["handed"], "second build and run")
    env.eq(list(R3.step_lpf_end), e1, "end factors of the second run")
    same(snaps(R1), s1, "results of the first run after the second")
    env.eq(list(R1.step_lpf_end), e1, "end factors of the first run after the second")
    intact(M, d0, "after building and running twice")
    if third: same(snaps(go(M)), s1, "third build and run")

class Fault(Exception): pass

CHANGES = ("law", "law-back", "parameters", "area", "fewer-steps", "more-steps", "loads", "control", "increments", "fault", "boundary", "coordinates")
def changed(env, what=CHANGES, ncalls=4, log=0):
    """a model that has been built and run (or whose run was ended by an error) is changed,
    built and run again: the same as a new model defined that way at once"""
    ch = env.choice("change", list(what))
    box = {"k": 0}
    X = vec(env, "X", lo=-4, hi=4)
    E, A = env.real("E", 1, 16), env.real("A", 1, 4)
    f, g = vec(env, "f", 6), vec(env, "g", 6)
    ans = [(env.real("u%d" % k, 0, 2), env.real("l%d" % k, 0, 2), env.flag("ok%d" % k) if k == 1 else True) for k in range(ncalls)]
    def newton(F, J, x, nfev=8, ftol=1e-8, xtol=1e-8, verbose=0, *args):
        k = box["k"]; box["k"] += 1
        if k >= ncalls: raise Stop("bound on the number of solver calls")
        u, l, ok = ans[k]
        v = env.arr([x[i] for i in range(len(x) - 2)] + [u, l])
        r, K = F(v, *args), J(v, *args)
        n = len(v)
        box["handed"].append([x[i] for i in range(n)] + [r[i] for i in range(n)] + [K[i, j] for i in range(n) for j in range(n)])
        if box.get("fault") and k == 1: raise Fault()
        return v, ok, 2, 0.0, 0.0
    tp = env.load(with_newton(newton))
    def make(second):
        "the definition after (second) or before the change"
        c = ch if second else None
        M = tp.Model(log=log)
        a = add(X, [0.5, 0, 0]) if c == "coordinates" else X
        M.Nodes.add_node(7, coord=tuple(add(X, [1.0, 0.0, 0.0]))); M.Nodes.add_node(3, coord=tuple(a))
        t = (1, 1) if c == "law" or (ch == "law-back" and not second) else (2, 1)
        M.Elements.add_element(2, conn=(3, 7), mat_type=t[0], mprop=[E + (1 if c == "parameters" else 0), 4.0, 1.0], gprop=[A, 0.625])
        M.Elements.add_element(1, conn=(7, 3), mat_type=t[1], mprop=[4.0, 0.375, 0.0625], gprop=[A + (1 if c == "area" else 0), 0.625])
        M.Boundaries.add_bound_U(7, (1, 0, 0)); M.Boundaries.add_bound_U(3, (0, 1 if c == "boundary" else 0, 0))
        M.ExtForces.add_force(7, tuple(g if c == "loads" else f))
        S = M.Settings
        S.nsteps = 2 if (ch == "fewer-steps") != (c in ("more-steps", "fewer-steps")) else 1
        S.incs, S.cycl, S.j_pre, S.j_fixed, S.j0, S.du, S.dlpf, S.dxtol, S.stepcontrol = 2 if c == "increments" or ch == "fault" else 1, 2, False, True, 1, 4.0, 4.0, 1.0, False
        if ch == "boundary" and second: S.j0 = 2
        if c == "control": S.j_fixed, S.j0 = False, None
        return M
    def go(M, fault=False):
        box.update(k=0, handed=[], fault=fault)
        M.build()
        try: M.run()
        except Fault: env.cover("ended-by-error")
        return M.Results
    def edit(M):
        B = make(True)
        if ch in ("law", "law-back"): M.Elements.assign_mtype([2], 1 if ch == "law" else 2)
        if ch == "parameters": M.Elements.assign_material([2], [E + 1, 4.0, 1.0])
        if ch == "area": M.Elements.assign_geometry([1], [A + 1, 0.625])
        if ch == "loads": M.ExtForces.del_force(7); M.ExtForces.add_force(7, tuple(g))
        if ch == "boundary": M.Boundaries.del_bound_U(3); M.Boundaries.add_bound_U(3, (0, 1, 0))
        if ch == "coordinates": M.Nodes.del_node(3); M.Nodes.add_node(3, coord=tuple(add(X, [0.5, 0, 0])))
        for a in ("nsteps", "incs", "j_fixed", "j0"): setattr(M.Settings, a, getattr(B.Settings, a))
    M = make(False)
    go(M, fault=ch == "fault")
    edit(M)
    R, h = go(M), box["handed"]
    N = make(True)
    Q, hq = go(N), box["handed"]
    env.check(len(R.R) == len(Q.R), "%s changed after a run: number of results" % ch)
    env.check(len(h) == len(hq), "%s changed after a run: number of solver calls" % ch)
    for i, (p, q) in enumerate(zip(h, hq)): env.eq(p, q, "%s changed after a run: what solver call %d is handed" % (ch, i + 1))
    for i, (p, q) in enumerate(zip(R.R, Q.R)):
        for (nm, u), (_, v) in zip(snap(p, False) if i else snap0(p, False), snap(q, False) if i else snap0(q, False)): env.eq(u, v, "%s changed after a run: %s of result %d" % (ch, nm, i))
    env.eq(list(R.step_lpf_end), list(Q.step_lpf_end), "%s changed after a run: end factors" % ch)
    env.cover("results%d" % (len(Q.R) - 1))

def snap0(r, has2):
    out = [("displacements", r.U.copy()), ("internal forces", r.r.copy()), ("stretches", r.stretch.copy()), ("stresses", r.element_stress.copy()), ("normal forces", r.element_force.copy()), ("load factor", r.lpf)]
    if has2: out.append(("history", r.state_v.copy()))
    return out

SCENARIOS = [
    Scn("elastic-anywhere", again, mats=(1,), steps=1, incs=1, ncalls=1, geo="any", fail=False, covers=("results1",), bounds="elastic bar anywhere in space, 1 increment; coordinates, parameters, loads, displacement, load factor arbitrary"),
    Scn("elastic-two-steps", again, mats=(1, 1), steps=2, incs=1, ncalls=2, covers=("results2", "results1"), bounds="2 elastic bars, 2 steps of 1 increment, any loads, solver answers (up to 2 calls, u 0..2)"),
    Scn("plastic", again, mats=(2,), steps=1, incs=1, ncalls=2, covers=("results1", "results0"), bounds="elastic-plastic bar, 1 increment"),
    Scn("plastic-two", again, mats=(2, 1), steps=1, incs=2, ncalls=2, fail=False, covers=("results2",), bounds="elastic-plastic and elastic bar, 2 increments"),
    Scn("two-models", again, mats=(1,), steps=2, incs=1, ncalls=2, fail=False, two=True, third=True, covers=("results2",), bounds="a second model with the same definition in between, three runs of the first"),
    Scn("another-model", again, mats=(2, 1), steps=1, incs=1, ncalls=1, fail=False, other=True, covers=("results1",), bounds="another model with the same labels, one node more and other data is built and run in between"),
    Scn("free-control", again, mats=(1,), steps=1, incs=1, ncalls=2, jfix=False, covers=("results1",), bounds="control not locked, up to 2 solver calls"),
    Scn("free-control-two-increments", again, mats=(1,), steps=1, incs=2, ncalls=2, jfix=False, fail=False, covers=("results2",), bounds="control not locked, 2 increments"),
    Scn("adaptive", again, mats=(1,), steps=1, incs=2, ncalls=2, step=True, covers=("results2", "results0"), bounds="adaptive step width, up to 2 solver calls"),
    Scn("changed", changed, covers=("results2", "ended-by-error"), bounds="a model changed after a run (material law, parameters, area, steps, loads, control, increments, boundary, coordinates) or after a run that ended by an error, compared with a new model; 2 elements, up to 2 increments, answers of the solver arbitrary"),
    Scn("plastic-two-steps", again, mats=(2, 2), steps=2, incs=2, ncalls=4, fail=False, covers=("results4",), bounds="2 steps of 2 increments with two elastic-plastic bars", tier="thorough", path_limit=600),
    Scn("two-dof", again, mats=(1,), steps=1, incs=1, ncalls=2, ndof=2, jfix=False, covers=("results1",), bounds="2 free DOF, control not locked", tier="thorough", path_limit=600),
]
