"""C08: own load times factor plus frozen loads of the earlier steps."""
from .runs import *

W = ("load", "point", "start", "state")
SCENARIOS = [
    Scn("two-steps", history, want=W, mats=(1,), steps=2, incs=1, cycl=2, maxcalls=3, lpf="pos", u="up", probes=1, covers=("steps2-accepted2", "steps2-accepted1"),
        bounds="2 steps of 1 increment with any load vectors, up to 3 solver calls with any outcome, residual evaluated at arbitrary points"),
    Scn("three-steps", history, want=W, mats=(1,), steps=3, incs=1, cycl=2, maxcalls=3, lpf="pos", u="up", probes=1, fail=False, covers=("steps3-accepted3",), bounds="3 steps of 1 increment"),
    Scn("signs", history, want=W, mats=(1,), steps=2, incs=1, cycl=1, maxcalls=2, lpf="any", probes=1, covers=("steps2-accepted2", "steps2-accepted1", "steps2-accepted0"), bounds="2 steps of 1 increment, any displacements and load factors"),
    Scn("unloading", history, want=W, mats=(1,), steps=3, incs=(3, 2, 1), cycl=1, maxcalls=6, lpf="fall", u="grow", du=8.0, probes=1, fail=False, covers=("steps3-accepted6",), bounds="3 steps of 3, 2 and 1 increments with load factors that grow and then decrease, and growing displacements"),
    Scn("plastic", history, want=W, mats=(2,), steps=2, incs=1, cycl=1, maxcalls=2, lpf="pos", u="up", probes=1, covers=("steps2-accepted2",), bounds="2 steps with an elastic-plastic bar"),
    Scn("stop-limits", history, want=W, mats=(1,), steps=2, incs=2, cycl=1, maxcalls=3, u="up", fail=False, probes=1, xlimit=((2, 1.0), (1, 1.5)), covers=("limit",), bounds="2 steps ending by increment number or stop limit"),
    Scn("six-steps", history, want=W, mats=(1,), steps=6, incs=1, cycl=1, maxcalls=6, lpf="pos", u="up", probes=1, fail=False, du=8.0, covers=("steps6-accepted6",), bounds="6 steps of 1 increment with any load vectors"),
    Scn("twelve-steps", history, want=W, mats=(1,), steps=12, incs=1, cycl=1, maxcalls=12, lpf="grow", u="grow", probes=1, fail=False, du=8.0, covers=("steps12-accepted12",), bounds="12 steps of 1 increment with any load vectors, growing displacements"),
    Scn("after-another-model", history, want=W, mats=(1,), steps=2, incs=1, cycl=2, maxcalls=2, lpf="pos", u="up", probes=1, fail=False, decoy=True, covers=("steps2-accepted2",), bounds="2 steps after a run of another model with the same labels"),
    Scn("own-solver", real_solver, mats=(2,), bounds="2 steps of at most 2 increments of a yielding bar with the code's Newton solver, any reference loads", covers=("next-step-after-failure",)),
    Scn("own-solver-adaptive", real_solver, mats=(2,), steps=2, incs=2, cycl=2, nfev=3, stepcontrol=True, f2=False, observe=False, bounds="as own-solver with adaptive step width and recycling, any first load"),
    Scn("own-solver-locked", real_solver, mats=(2,), steps=2, incs=2, cycl=2, nfev=3, jfix=1, bounds="as own-solver, locked to the displacement"),
    Scn("own-solver-three", real_solver, mats=(1, 1), steps=3, incs=2, cycl=2, nfev=3, bounds="3 steps of elastic bars"),
    Scn("own-solver-long", real_solver, mats=(2,), steps=3, incs=3, cycl=1, nfev=3, maxcalls=30, bounds="3 steps of at most 3 increments", tier="thorough"),
    Scn("four-steps", history, want=W, mats=(1,), steps=4, incs=1, cycl=2, maxcalls=5, lpf="pos", u="up", probes=1, covers=("steps4-accepted4",), bounds="4 steps of 1 increment, up to 5 solver calls", tier="thorough"),
    Scn("three-plastic", history, want=W, mats=(2, 1), steps=3, incs=1, cycl=1, maxcalls=3, lpf="pos", u="up", probes=1, pcalls=3, bounds="3 steps, elastic and elastic-plastic bar", tier="thorough"),
]
