"""C05: linear-elastic elements have no memory."""
from .common import *

def bars(env, n, mats, ret, decoy=False):
    """elastic bar (first element) in parallel with others between the same two nodes,
    n increments; the others' material types are given by mats"""
    E, A, L = env.real("E", pos=True), env.real("A", pos=True), 2.0
    u = [env.real("u%d" % i, lo=-0.75, hi=64) for i in range(n)]
    pos = env.choice("pos", list(range(len(mats) + 1)))
    npar = 3 if 2 in mats else 1
    own = [E] + [0.375, 0.0625][:npar - 1]
    if npar == 3 and env.flag("extra"): own = [E, env.real("p1", 0, 8), env.real("p2", 0, 8)]
    h = [env.real("h0"), env.real("h1")]
    nst = 2 if (2 in mats or env.flag("statev")) else 0
    got = []
    def build(M):
        els = []
        for k, m in enumerate(mats):
            els.append(El(10 + k, (1, 2), 1.0 + k, m, [8.0, 1.0, 0.5] if m == 2 else [4.0] + [0.375, 0.0625][:npar - 1]))
        els.insert(pos, El(5, (2, 1), A, 1, own))
        define(M, [(1, (0.0, 0.0, 0.0)), (2, (L, 0.0, 0.0))], els, [(1, (0, 0, 0)), (2, (1, 0, 0))], [(2, (1.0, 0.0, 0.0))])
        M.Settings.nstatev = nst
    def prep(M):
        if nst:
            M.Analysis.state_v[pos] = list(h)
    def script(k, F, J, x, M, call):
        v = [u[k] * L, env.real("lpf%d" % k, -4, 4)]
        F(v)
        got.append((M.Analysis.element_stress[pos, 0], None))
        Kt = J(v)[0, 0]
        if not mats: got[-1] = (got[-1][0], Kt)
        return v, True, 1, 0.0, 0.0
    M = drive(env, build, script, prep=prep, j_pre=False, j_fixed=True, j0=1, du=1024.0, dlpf=1024.0, incs=n, decoy=decoy)
    R = M.Results.R
    env.check(len(R) == n + 1, "number of accepted increments")
    for i in range(n):
        s = R[i + 1].element_stress[pos, 0]
        env.eq(s, E * u[i], "elastic stress")
        env.eq(got[i][0], E * u[i], "elastic stress during the iteration")
        if not mats: env.eq(got[i][1] * L, E * A, "elastic tangent")
        if nst: env.eq(R[i + 1].state_v[pos], h, "stored history of the elastic element")
        env.observe("s%d" % i, s)
    if ret: pass

def stiff(env, other):
    "tangent of an elastic element at right angles to a plastic one"
    E, A = env.real("E", pos=True), env.real("A", pos=True)
    u, v = env.real("u", -0.75, 8), env.real("v", -0.75, 8)
    h = [env.real("h0"), env.real("h1")]
    first = env.flag("first")
    def build(M):
        a, b = El(1, (1, 2), A, 1, [E, 0.0, 0.0]), El(2, (1, 3), 1.0, other, [8.0, 1.0, 0.5])
        define(M, [(1, (0.0, 0.0, 0.0)), (2, (1.0, 0.0, 0.0)), (3, (0.0, 1.0, 0.0))], [a, b] if first else [b, a],
               [(1, (0, 0, 0)), (2, (1, 0, 0)), (3, (0, 1, 0))], [(2, (1.0, 0.0, 0.0)), (3, (0.0, 1.0, 0.0))])
    def fn(F, J, x, M):
        row = 0 if first else 1
        if other == 2: M.Analysis.state_v[row] = list(h)
        w = [u, v, 0.0]
        F(w)
        env.eq(M.Analysis.element_stress[row, 0], E * u, "elastic stress")
        Kt = J(w)
        env.eq(Kt[0, 0], E * A, "elastic tangent next to another element")
        if other == 2: env.eq(M.Analysis.state_v[row], h, "stored history")
        env.observe("K", Kt)
    probe(env, build, fn)

SCENARIOS = [
    Scn("alone", bars, bounds="2 increments to any strains in -3/4..64, E, A > 0; with and without stored history values", n=2, mats=[], ret=False),
    Scn("with-plastic", bars, bounds="2 increments next to elastic-plastic elements in every definition position, spare material parameters and stored history values arbitrary", n=2, mats=[2], ret=False),
    Scn("with-two", bars, bounds="1 increment among an elastic-plastic and another elastic element", n=1, mats=[2, 1], ret=False),
    Scn("tangent-with-plastic", stiff, bounds="tangent and stress next to an elastic-plastic element, any strain -3/4..8", other=2),
    Scn("after-another-model", bars, bounds="as with-plastic, after a run of another model with the same labels", n=2, mats=[2], ret=False, decoy=True),
    Scn("three-increments", bars, bounds="3 increments among two elastic-plastic elements", n=3, mats=[2, 2], ret=False, tier="thorough", path_limit=600),
]
