"""Models with results to be plotted. The results come from real runs in which the
Newton solver answers with arbitrary displacements and load factors."""
from .common import *
from symx.stubs import drawn

class Shown:
    """n nodes with arbitrary distinct labels in any order, connected by bars.
    labels, X (coordinates), F[step][node], conns (node numbers), free (node numbers)"""
    def __init__(self, env, n=3, free=(1,), steps=2, incs=1, coords="far", forces="sym", mats=(1,), conns=None, lo=-BIG, hi=BIG, lab="sym", log=0, order=None, arbitrary=False, decoy=False):
        self.env, self.n, self.steps, self.free = env, n, steps, free
        self.lab = labels(env, n, lo, hi, "n") if lab == "sym" else list(lab)
        if coords == "far": self.X = [[2.0 * i, 1.0 * (i % 2), 0.5 * i] for i in range(n)]
        else: self.X = [vec(env, "X%d_" % i, 3, lo=-4, hi=4) for i in range(n)]
        if forces == "sym": self.F = [[vec(env, "f%d_%d_" % (s, i), 3, lo=-4, hi=4) for i in range(n)] for s in range(steps)]
        elif forces == "one": self.F = [[vec(env, "f%d_" % s, 3, lo=-4, hi=4) if i == 1 else [0.0] * 3 for i in range(n)] for s in range(steps)]
        else: self.F = [[list(forces(s, i)) for i in range(n)] for s in range(steps)]
        self.conns = conns or [(i, i + 1) if i % 2 == 0 else (i + 1, i) for i in range(n - 1)]
        # node numbers in ascending label order
        self.rank = [sum(1 for j in range(n) if j != i and env.truth(self.lab[j] < self.lab[i])) for i in range(n)]
        self.asc = sorted(range(n), key=lambda i: self.rank[i])
        self.U, self.lpf, self.step = [[[0.0] * 3] * n], [0.0], [1]
        self.mats = [mats[k % len(mats)] for k in range(len(self.conns))]
        npar = 3 if 2 in self.mats else 1
        self.par = [[8.0, 4.0, 8.0] if m == 2 else [4.0 + k] + [0.375, 0.0625][:npar - 1] for k, m in enumerate(self.mats)]
        def build(M):
            for i in (order or range(n - 1, -1, -1)): M.Nodes.add_node(self.lab[i], coord=tuple(self.X[i]))
            for k, (a, b) in enumerate(self.conns): M.Elements.add_element(BIG - 3 * k, conn=(self.lab[a], self.lab[b]), mat_type=self.mats[k], mprop=list(self.par[k]), gprop=[0.5 + k, 0.625])
            for i in range(n): M.Boundaries.add_bound_U(self.lab[i], (1, 1, 1) if i in free else (0, 0, 0))
            for i in range(n):
                fv = [c for s in range(steps) for c in self.F[s][i]]
                M.ExtForces.add_force(self.lab[i], tuple(fv))
            M.Settings.nsteps = steps
        tot = incs * steps if not isinstance(incs, tuple) else sum(incs)
        per = [s for s in range(steps) for _ in range(incs[s] if isinstance(incs, tuple) else incs)]
        def script(k, F, J, x, M, call):
            if k >= tot: raise Stop("more increments than expected")
            v, U = [], [list(u) for u in self.U[0]]
            for i in self.asc:
                if i not in free: continue
                # disjoint ranges: which component moves most is not the point here
                q = [(-1) ** (c + i) * ((k + 1) * (3 * i + c + 1) / 32 + env.real("u%d_%d_%d" % (k, i, c), 0, 1 / 128)) for c in range(3)]
                v += q; U[i] = q
            if coords != "far":
                for a, b in self.conns: env.assume(norm(env, sub(add(self.X[a], U[a]), add(self.X[b], U[b]))) > 0)
            l = (1 - 2 * (per[k] % 2)) * (1.0 + k - (per.index(per[k])) + env.real("l%d" % k, 0, 0.25))
            self.U.append(U); self.lpf.append(l); self.step.append(per[k] + 1)
            return v + [l], True, 1, 0.0, 0.0
        if coords != "far":
            for a, b in self.conns: env.assume(norm(env, sub(self.X[a], self.X[b])) > 0)
        self.M = drive(env, build, script, log=log, j_pre=False, j_fixed=True, j0=1, du=16.0, dlpf=16.0, dxtol=1.0, incs=incs, cycl=1, stepcontrol=False, decoy=decoy)
        env.check(len(self.M.Results.R) == tot + 1, "undeformed state and every increment recorded")
        if len(self.M.Results.R) != tot + 1: raise Stop()
        if arbitrary:
            for k in range(1, tot + 1):
                self.U[k] = [vec(env, "U%d_%d_" % (k, i)) for i in range(n)]
                self.lpf[k] = env.real("L%d" % k)
                r = self.M.Results.R[k]
                r.U, r.lpf = env.arr([self.U[k][i] for i in self.asc]), self.lpf[k]
                for nm in ("stretch", "element_force", "element_stress"):
                    q = env.arr([[env.real("%s%d_%d" % (nm, k, e), -4, 4)] for e in range(len(self.conns))])
                    env.check(getattr(r, nm).shape == q.shape, nm + ": one value per element")
                    setattr(r, nm, q)
                r.r = env.arr([vec(env, "R%d_%d_" % (k, i)) for i in self.asc])
    def kept(self, inc, i):
        "loads of node i kept from earlier steps"
        out = [0.0] * 3
        for s in range(1, self.step[inc]):
            last = max(k for k in range(len(self.step)) if self.step[k] == s)
            out = [o + self.lpf[last] * c for o, c in zip(out, self.F[s - 1][i])]
        return out
    def load(self, inc, i):
        "external load of node i in result inc"
        return [self.lpf[inc] * c + k for c, k in zip(self.F[self.step[inc] - 1][i], self.kept(inc, i))]

def closeall(env):
    plt = env.world.loader.fakes["matplotlib.pyplot"] if env.sym else __import__("matplotlib.pyplot").pyplot
    plt.close("all")

def match(env, got, want, msg):
    "the same things in any order; a thing is a list of numbers"
    env.check(len(got) == len(want), "%s: %d drawn, expected %d" % (msg, len(got), len(want)))
    got, left = list(got), []
    for w in want:
        for g in got:
            if len(g) == len(w) and all(env.same(x, y) for x, y in zip(g, w)):
                got.remove(g) if not env.sym else got.pop(next(k for k, h in enumerate(got) if h is g))
                break
        else: left.append(w)
    for g, w in zip(got, left): env.eq(g, w, msg)

AX = {"xz": (0, 2), "xy": (0, 1), "yz": (1, 2), "3d": (0, 1, 2)}
BINS = 10

def quantity(S, kind, inc):
    R = S.M.Results.R[inc]
    q = {"stretch": R.stretch, "force": R.element_force, "stress": R.element_stress}[kind]
    return [q[k][0] for k in range(len(S.conns))]

def limits(env, kind, q):
    m = 0.0
    for v in q:
        a = env.abs(v - 1 if kind == "stretch" else v)
        m = a if env.truth(a > m) else m
    return (1 - m, 1 + m) if kind == "stretch" else (-m, m)

def picture(env, S, inc, view, fs=1.0, contour=None, lim=None):
    "expected content of a model plot: nodes, elements (with normalised value), load arrows"
    U = S.U[inc]
    P = [add(S.X[i], U[i]) for i in range(S.n)]
    ax = AX[view]
    nodes = [[p[c] for c in ax] for p in P]
    elems = [[P[a][c] for c in ax] + [P[b][c] for c in ax] for a, b in S.conns]
    arrows = []
    for i in range(S.n):
        f = S.load(inc, i) if inc else S.F[0][i]
        for c in ax:
            if env.truth(f[c] == 0): continue
            d = [0.0, 0.0, 0.0]
            d[c] = fs * f[c]
            if view == "3d": arrows.append([v for q in range(3) for v in (P[i][q], P[i][q] + d[q])])
            else: arrows.append([P[i][ax[0]], P[i][ax[1]], d[ax[0]], d[ax[1]]])
    con = None
    if contour and inc:
        kind = contour[0] if isinstance(contour, tuple) else contour
        q = quantity(S, kind, inc)
        lo, hi = contour[1] if isinstance(contour, tuple) else lim or limits(env, kind, q)
        con = [0.0 if env.truth(hi == lo) else (v - lo) / (hi - lo) for v in q]
    return dict(nodes=nodes, elems=elems, arrows=arrows, con=con)

def colour_is(env, c, v, msg):
    "colour c belongs to the normalised value v"
    if env.sym:
        env.check(hasattr(c, "cmap"), msg + ": taken from the colour map")
        if hasattr(c, "cmap"):
            # first: not off by more than a bin of the colour map (such models can be replayed)
            off = env.or_(c.v - v > 1.5 / BINS, v - c.v > 1.5 / BINS)
            env.check(env.not_(env.and_(off, c.v >= 0, c.v <= 1, v >= 0, v <= 1)), msg)
            env.eq(c.v, v, msg)
        return
    if abs(v * BINS - round(v * BINS)) < 1e-6: return     # between two bins
    import matplotlib.pyplot as plt, matplotlib.colors as mc
    cm = plt.get_cmap("bwr", BINS)
    cm.set_over("0.95"); cm.set_under("0.6")
    env.check(max(abs(a - b) for a, b in zip(mc.to_rgba(c), cm(v))) < 1e-3, "%s: %r, expected %r" % (msg, mc.to_rgba(c), cm(v)))

def compare(env, d, want, view, msg):
    "content of an axes against the expected picture"
    n = len(want["nodes"])
    dim = 3 if view == "3d" else 2
    env.check(d["p3"] == (view == "3d"), msg + ": kind of axes")
    if d["p3"] != (view == "3d"): return
    pts = [list(p) for q in d["points"] for p in zip(*q)]
    for l in d["lines"]:
        if l["noline"] and l["markers"]: pts += [list(p) for p in zip(*l["xyz"])]
    if view == "3d" and len(pts) == n + 1:                # the origin of the coordinate triad
        k = next((k for k in range(n, -1, -1) if all(env.same(x, 0.0) for x in pts[k])), None)
        if k is not None: pts.pop(k)
    match(env, pts, want["nodes"], msg + ": node positions")
    lines = [l for l in d["lines"] if not l["noline"]]
    ends = [[v[0] for v in l["xyz"]] + [v[-1] for v in l["xyz"]] for l in lines]
    env.check(all(len(l["xyz"][0]) == 2 for l in lines), msg + ": element lines have two ends")
    m = len(want["elems"])
    def paired(es, ws):
        "lines may be drawn from either end"
        out = []
        for e in es:
            r = e[dim:] + e[:dim]
            if any(all(env.same(x, y) for x, y in zip(r, w)) for w in ws) and not any(all(env.same(x, y) for x, y in zip(e, w)) for w in ws): e = r
            out.append(e)
        return out
    ends = paired(ends, want["elems"])
    if want["con"] is None: match(env, ends, want["elems"], msg + ": element lines")
    else:
        col = [k for k in range(len(lines)) if lines[k]["color"] != "C7"] if not env.sym else [k for k in range(len(lines)) if not isinstance(lines[k]["color"], str)]
        match(env, [ends[k] for k in col], want["elems"], msg + ": coloured element lines")
        if len(col) == m:
            for w, v in zip(want["elems"], want["con"]):
                k = next((k for k in col if all(env.same(x, y) for x, y in zip(ends[k], w))), None)
                if k is not None: colour_is(env, lines[k]["color"], v, msg + ": contour colour of an element")
        for k in range(len(lines)):
            if k not in col: env.check(any(all(env.same(x, y) for x, y in zip(ends[k], w)) for w in want["elems"]), msg + ": outline of an element")
    arr_ = []
    for a, c in zip(d["arrows"], d["acol"]):
        if view == "3d":
            if c == "k": continue                         # the coordinate triad
            a = [x for v in a for x in v]
        arr_.append(list(a))
    match(env, arr_, want["arrows"], msg + ": load arrows")
