"""C07: the committed history advances only with accepted increments."""
from .runs import *

W = ("state", "evals", "point")
COV = ("accepted", "refused", "aborted")
SCENARIOS = [
    Scn("one-step", history, want=W, mats=(2, 1), incs=2, cycl=2, maxcalls=3, order=[1, 0], lpf="zero", forces=[(1, 0, 0)], pcalls=2, covers=COV,
        bounds="1 step of 2 increments, up to 3 solver calls with any success flags and points (u in -1/2..2, distinct from the start point), residual and matrix evaluated at arbitrary points in the first two, elastic and elastic-plastic bar"),
    Scn("two-steps", history, want=W, mats=(2,), steps=2, incs=1, cycl=2, maxcalls=3, lpf="zero", forces=[(1, 0, 0), (1, 0, 0)], pcalls=1, covers=("steps2-accepted2",), bounds="2 steps of 1 increment, up to 3 solver calls, arbitrary evaluation in the first"),
    Scn("two-plastic", history, want=W, mats=(2, 2), incs=2, cycl=3, maxcalls=2, probes=0, lpf="zero", forces=[(1, 0, 0)], bounds="two elastic-plastic bars with different limits, 2 increments"),
    Scn("stay", history, want=W, mats=(2,), incs=2, cycl=2, maxcalls=2, probes=0, moves=False, lpf="any", forces=[(1, 0, 0)], bounds="2 solver calls, any load factor, also answers that do not move"),
    Scn("linearised", history, want=W, mats=(2,), incs=2, cycl=2, maxcalls=3, jfix=False, jpre=True, lpf="zero", u="up", forces=[(1, 0, 0)], pcalls=1, covers=("accepted-pre", "refused-pre"), bounds="with pre-identification of the control component, up to 3 solver calls"),
    Scn("many-steps", history, want=W, mats=(2,), steps=5, incs=1, cycl=1, maxcalls=5, lpf="zero", u="up", fail=False, du=8.0, probes=0, forces=[(1, 0, 0)] * 5, covers=("steps5-accepted5",), bounds="5 steps of 1 increment, monotone displacements"),
    Scn("after-another-model", history, want=W, mats=(2, 1), incs=2, cycl=2, maxcalls=2, order=[1, 0], lpf="zero", forces=[(1, 0, 0)], pcalls=1, decoy=True, covers=("accepted",), bounds="after a run of another model with the same labels, 2 solver calls"),
    Scn("twelve-increments", history, want=W, mats=(2,), incs=12, cycl=1, maxcalls=12, lpf="zero", u="grow", fail=False, du=8.0, probes=0, forces=[(1, 0, 0)], covers=("steps1-accepted12",), bounds="1 step of 12 increments, growing displacements"),
    Scn("long", history, want=W, mats=(2, 1), incs=2, cycl=2, maxcalls=4, order=[1, 0], lpf="zero", forces=[(1, 0, 0)], pcalls=3, covers=COV, bounds="as one-step, up to 4 solver calls", tier="thorough"),
    Scn("two-steps-long", history, want=W, mats=(2, 2), steps=2, incs=2, cycl=2, maxcalls=4, lpf="zero", forces=[(1, 0, 0), (1, 0, 0)], pcalls=2, covers=("steps2-accepted4",), bounds="2 steps of 2 increments, two elastic-plastic bars, up to 4 solver calls", tier="thorough"),
    Scn("three-steps", history, want=W, mats=(2,), steps=3, incs=1, cycl=2, maxcalls=4, lpf="zero", forces=[(1, 0, 0)] * 3, pcalls=1, covers=("steps3-accepted3",), bounds="3 steps of 1 increment, up to 4 solver calls", tier="thorough"),
]
