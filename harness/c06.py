"""C06: flow rules of the elastic-plastic element, observed on a bar driven by the
path following algorithm (displacement control; the Newton solver is answered by us)."""
from .common import *

def bar(env, n, start, others=False, L=1.0, decoy=False):
    """n accepted increments of a bar of length L along x, to arbitrary positive lengths"""
    E, K, Sy = env.real("E", pos=True), env.real("K", lo=0), env.real("Sy", pos=True)
    A = env.real("A", pos=True)
    u = [env.real("u%d" % i, lo=-0.75, hi=64) for i in range(n)]
    if start == "any":
        sy0, ep0 = env.real("sy0", pos=True), env.real("ep0", -1, 64)
        env.assume(sy0 >= Sy)
    else: sy0, ep0 = Sy, 0.0
    got = []
    def build(M):
        els = [El(3, (1, 2), A, 2, [E, K, Sy])]
        if others: els = [El(7, (2, 3), 1.0, 1, [8.0, 0.0, 0.0])] + els + [El(1, (1, 3), 1.0, 2, [16.0, 1.0, 2.0])]
        nd = [(1, (0.0, 0.0, 0.0)), (2, (L, 0.0, 0.0))] + ([(3, (0.0, 1.0, 0.0))] if others else [])
        define(M, nd, els, [(1, (0, 0, 0)), (2, (1, 0, 0))] + ([(3, (0, 0, 0))] if others else []), [(2, (1.0, 0.0, 0.0))])
    row = 1 if others else 0
    def prep(M):
        if start == "any":
            M.Analysis.state_v[row] = [sy0, ep0]
            M.Results.R[0].state_v[row] = [sy0, ep0]
    def script(k, F, J, x, M, call):
        v = [u[k] * L, 0.0]
        Jv = J(v)
        F(v)
        got.append((Jv[0, 0], M.Analysis.element_stress[row, 0], M.Analysis.element_force[row, 0]))
        return v, True, 1, 0.0, 0.0
    M = drive(env, build, script, prep=prep, j_pre=False, j_fixed=True, j0=1, du=1024.0, dlpf=1024.0, incs=n, decoy=decoy)
    R = M.Results.R
    env.check(len(R) == n + 1, "number of accepted increments")
    sy, ep = sy0, ep0
    for i in range(n):
        r = R[i + 1]
        e = u[i]
        s, s1, e1 = r.element_stress[row, 0], r.state_v[row, 0], r.state_v[row, 1]
        tr = E * (e - ep)
        Kt = got[i][0]
        if not others: Kt = got[i][0] * L / A
        if env.truth(env.abs(tr) <= sy):
            env.cover("elastic")
            env.eq(s, tr, "stress of an elastic update")
            env.eq(s1, sy, "yield stress after an elastic update")
            env.eq(e1, ep, "plastic strain after an elastic update")
            if not others: env.eq(Kt, E, "elastic tangent")
        else:
            env.cover("plastic")
            pos = env.truth(tr > 0)
            env.cover("tension" if pos else "compression")
            sg = 1 if pos else -1
            env.eq(sg * s, s1, "stress on the new yield limit, with the sign of the trial stress")
            env.check(s1 > 0, "new yield limit positive")
            env.eq(s1 - sy, K * sg * (e1 - ep), "hardening: growth of the yield stress")
            env.check(sg * (e1 - ep) > 0, "plastic strain increment has the sign of the stress")
            if not others: env.eq(Kt * (E + K), E * K, "plastic tangent")
        env.eq(s, E * (e - e1), "stress is modulus times elastic strain")
        env.eq(r.element_force[row, 0], s * A, "normal force")
        env.le(sy, s1, "yield stress never decreases")
        env.eq(got[i][1], s, "stress during the iteration and after acceptance at the same point")
        sy, ep = s1, e1
        env.observe("r%d" % i, [s, s1, e1, Kt])

SCENARIOS = [
    Scn("one-update-any-state", bar, covers=("elastic", "plastic", "tension", "compression"), bounds="one update from any (yield stress >= initial, plastic strain in -1..64), strain -3/4..64, E, Sy, A > 0, K >= 0", n=1, start="any"),
    Scn("two-updates-virgin", bar, covers=("elastic", "plastic", "tension", "compression"), bounds="virgin bar, 2 updates to any strains in -3/4..64", n=2, start="virgin"),
    Scn("three-updates-virgin", bar, bounds="virgin bar, 3 updates", n=3, start="virgin", tier="thorough", path_limit=600, timeout_ms=40000),
    Scn("among-others", bar, covers=("elastic", "plastic"), bounds="2 updates from any state among an elastic and another elastic-plastic element", n=2, start="any", others=True),
    Scn("after-another-model", bar, covers=("elastic", "plastic"), bounds="as among-others, after a run of another model with the same labels", n=2, start="any", others=True, decoy=True),
    Scn("longer-bar", bar, bounds="as one-update-any-state, length 4", n=1, start="any", L=4.0),
]
