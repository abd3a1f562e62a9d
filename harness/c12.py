"""C12: adaptive step width."""
from .path import *

W = ("fac",)
def transition(env, n):
    """one controller decision from any state: the function itself"""
    tp = env.load()
    ctl = env.mod("trusspy.solvers.tpsolver").dxmax_control
    d0 = [env.real("d%d" % i, pos=True) for i in range(n)]
    fac, minfac, maxfac = env.real("fac", pos=True), env.real("minfac", pos=True), env.real("maxfac", pos=True)
    env.assume(minfac <= 1); env.assume(maxfac >= 1)
    env.assume(minfac <= fac); env.assume(fac <= maxfac)
    red, inc = env.real("reduce", lo=1), env.real("increase", lo=0)
    j, j0 = env.int("j", -n, n), env.int("j0", -n, n)
    env.assume(j != 0); env.assume(j0 != 0)
    cycl = env.int("cycl", 1, 99)
    z = env.int("z", 0, 98)
    env.assume(z + 1 <= cycl)
    b = env.int("b", 0, 999)
    nfev = env.int("nfev", 1, 99)
    it = env.int("n", 1, 99)
    env.assume(it <= nfev)
    ok = env.flag("ok")
    D0, D = env.arr(d0), env.arr([fac * d for d in d0])
    r, z1, b1, ch = ctl(D, D0, j, j0, z, cycl, ok, b, it, nfev, minfac=minfac, maxfac=maxfac, reduce=red, increase=inc)
    env.eq(D0, d0, "initial limits untouched")
    f1 = r[0] / d0[0]
    env.eq(r, [f1 * d for d in d0], "all limits are one common factor times their initial values")
    env.le(minfac, f1, "smallest factor"); env.le(f1, maxfac, "largest factor")
    if not at_most(env, fac, f1):
        env.cover("reduced")
        env.check(not ok, "reduced after a converged attempt")
        env.eq(f1, fac / red if at_most(env, minfac, fac / red) else minfac, "reduced by the configured factor")
        env.eq(b1, 0, "counter of increments since the last reduction")
    elif not at_most(env, f1, fac):
        env.cover("increased")
        env.check(ok, "increased after a failed attempt")
        env.check(env.and_(j == j0, z == 0, b > 3), "increased although the control component changed, the increment was recycled or the last reduction was too recent")
        env.check(it < nfev, "increased although all iterations were used")
        env.le(f1, fac * (1 + inc), "increase larger than configured")
        env.eq(b1, b, "counter of increments since the last reduction")
    else:
        env.cover("unchanged")
    env.observe("r", [r, z1, b1])

def recover(env, nacc, second=False):
    "a reduction followed by accepted increments with any number of iterations"
    return follow(env, want=W, ndof=1, incs=nacc, cycl=2, maxcalls=nacc + 2, jfix=1, step=True, vals="zero", its=True, first_ok=False, ok=(0, 1) if second else (1,))

SCENARIOS = [
    Scn("transition", transition, n=2, covers=("reduced", "increased", "unchanged"), bounds="one decision of the controller from any reachable state: factor between its limits, all parameters, control components, counters (recycles < 99, iterations up to 99) arbitrary; 2 components"),
    Scn("transition-four", transition, n=4, covers=("reduced", "increased", "unchanged"), bounds="as transition with 4 components"),
    Scn("run", follow, want=W, ndof=1, incs=2, cycl=2, maxcalls=3, few=2, step=True, its=True, covers=("reduced", "increased", "end"), bounds="runs of 2 increments, up to 3 solver calls, 1 free DOF, any iteration counts"),
    Scn("run-locked", follow, want=W, ndof=1, incs=3, cycl=3, maxcalls=4, few=2, jfix=-1, step=True, its=True, vals="zero", contract=True, covers=("reduced", "increased", "end"), bounds="runs of 3 increments with locked control component, up to 4 solver calls"),
    Scn("run-to-limits", follow, want=W, ndof=1, incs=3, cycl=4, maxcalls=4, jfix=1, few=1, step=True, its=True, vals="zero", fac=(1.25, 0.25, 8.0, 1.0), covers=("reduced", "increased", "end"), bounds="narrow limits of the factor, hit from both sides"),
    Scn("recovery", recover, nacc=6, covers=("reduced", "increased", "end"), bounds="a failed attempt followed by 6 accepted increments, any iteration counts"),
    Scn("fixed", follow, want=W, ndof=1, incs=2, cycl=3, maxcalls=3, few=2, step=False, its=True, covers=("end",), bounds="without adaptive control"),
    Scn("pre-identified", follow, want=W, ndof=1, jpre=True, incs=2, cycl=2, maxcalls=3, few=2, step=True, covers=("reduced", "end"), bounds="with pre-identification of the control component"),
    Scn("run-long", follow, want=W, ndof=1, incs=3, cycl=2, maxcalls=4, few=2, step=True, its=True, covers=("reduced", "increased", "end"), bounds="up to 4 solver calls", tier="thorough"),
    Scn("recovery-long", recover, nacc=7, second=True, covers=("reduced", "increased", "end"), bounds="a failed attempt followed by 7 increments, further failures possible", tier="thorough"),
]
