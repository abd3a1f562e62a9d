"""C14: results are complete, ordered, self-consistent snapshots."""
from .runs import *

W = ("snap", "frozen")
SCENARIOS = [
    Scn("two-steps", history, want=W, mats=(1,), steps=2, incs=2, cycl=2, maxcalls=4, lpf="pos", u="up", covers=("steps2-accepted3", "steps2-accepted0"), probes=0,
        bounds="2 steps of up to 2 increments, up to 4 solver calls with any success flags; any load vectors, monotone displacements and load factors", pcalls=0),
    Scn("plastic", history, want=W, mats=(2, 1), steps=2, incs=1, cycl=2, maxcalls=3, lpf="pos", u="up", probes=1, pcalls=2, covers=("steps2-accepted2",), bounds="2 steps of 1 increment with elastic and elastic-plastic bar, evaluations elsewhere before each answer"),
    Scn("both-directions", history, want=W, mats=(1, 1), steps=1, incs=2, cycl=2, maxcalls=2, lpf="any", moves=False, probes=1, covers=("steps1-accepted2",), bounds="1 step of 2 increments, any displacements and load factors"),
    Scn("free-control", history, want=W, mats=(1,), steps=2, incs=1, cycl=2, maxcalls=3, jfix=False, u="up", probes=0, covers=("steps2-accepted2",), bounds="2 steps of 1 increment, control component not locked"),
    Scn("limits", history, want=W, mats=(1,), steps=2, incs=(1, 3), cycl=2, maxcalls=4, u="up", fail=False, probes=0, xlimit=((1, 1.0), (2, 2.0)), covers=("limit", "steps2-accepted4"), bounds="2 steps of 1 and 3 increments with their own stop limits"),
    Scn("linearised", history, want=W, mats=(2,), steps=1, incs=2, cycl=2, maxcalls=3, jfix=False, jpre=True, u="up", probes=0, covers=("accepted-pre", "refused-pre"), bounds="1 step of 2 increments with pre-identification of the control component, up to 3 solver calls"),
    Scn("many-steps", history, want=W, mats=(1,), steps=6, incs=(1, 2, 1, 2, 1, 1), cycl=1, maxcalls=8, lpf="pos", u="up", fail=False, du=8.0, probes=0, covers=("steps6-accepted8",), bounds="6 steps of 1 or 2 increments, every attempt accepted"),
    Scn("twelve-increments", history, want=W, mats=(1,), steps=2, incs=(12, 1), cycl=1, maxcalls=13, lpf="grow", u="grow", fail=False, du=8.0, probes=0, covers=("steps2-accepted13",), bounds="2 steps of 12 and 1 increments, every attempt accepted"),
    Scn("after-another-model", history, want=W, mats=(2, 1), steps=2, incs=1, cycl=2, maxcalls=2, lpf="pos", u="up", fail=False, probes=1, decoy=True, covers=("steps2-accepted2",), bounds="2 steps after a run of another model with the same labels"),
    Scn("three-steps", history, want=W, mats=(1,), steps=3, incs=(2, 1, 2), cycl=2, maxcalls=5, lpf="pos", u="up", probes=0, covers=("steps3-accepted5",), bounds="3 steps, up to 5 solver calls", tier="thorough"),
    Scn("two-steps-any", history, want=W, mats=(2, 1), steps=2, incs=2, cycl=2, maxcalls=4, lpf="pos", probes=1, pcalls=1, covers=("steps2-accepted4",), bounds="2 steps of 2 increments, up to 4 solver calls, elastic and elastic-plastic bar", tier="thorough"),
    Scn("free-control-long", history, want=W, mats=(1,), steps=2, incs=2, cycl=3, maxcalls=4, jfix=False, lpf="pos", probes=0, covers=("steps2-accepted4",), bounds="2 steps of 2 increments, control component not locked, up to 4 solver calls", tier="thorough"),
]
