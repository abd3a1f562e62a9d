"""C13: path following ends exactly when its limits say so."""
from .path import *

W = ("exit", "attempts")
SCENARIOS = [
    Scn("increments-and-limit", follow, want=W, ndof=1, incs=3, cycl=2, maxcalls=4, few=1, xlimit=(1, 1.0), covers=("limit", "all-increments", "end"), bounds="3 increments with a stop limit on a displacement, up to 4 solver calls"),
    Scn("limit-on-load-factor", follow, want=W, ndof=1, incs=2, cycl=2, maxcalls=3, jfix=-2, xlimit=(2, 0.375), covers=("limit", "all-increments", "end"), bounds="2 increments with a stop limit on the load factor (negative values too)"),
    Scn("per-step", follow, want=W, ndof=1, steps=2, incs=(2, 1), cycl=2, maxcalls=4, few=1, ok=(1,), xlimit=((1, 0.5), (2, 0.25)), covers=("limit", "all-increments", "end"), bounds="2 steps with their own limits, up to 4 solver calls"),
    Scn("limit-changes", follow, want=W, ndof=1, steps=2, incs=(1, 2), cycl=2, maxcalls=3, jfix=2, ok=(1,), xlimit=((1, 3.0), (1, 0.5)), covers=("limit", "all-increments", "end"), bounds="2 steps with their own limits, the second may start beyond its limit and come back; load factor controlled, displacements arbitrary"),
    Scn("limit-pre-identified", follow, want=W, ndof=1, incs=3, cycl=2, maxcalls=4, few=1, jpre=True, ok=(1,), xlimit=(1, 1.0), covers=("limit", "accepted-pre", "end"), bounds="stop limit with a pre-identified control component, linearised solutions accepted as they are, up to 4 solver calls"),
    Scn("zero-increments", follow, want=W, ndof=1, incs=0, cycl=2, maxcalls=1, covers=("end",), bounds="no increments at all"),
    Scn("attempts", follow, want=W, ndof=1, incs=1, cycl=3, maxcalls=4, few=2, covers=("given-up", "failed", "outside", "end"), bounds="1 increment, 3 attempts, every sequence of failed and refused answers"),
    Scn("attempts-adaptive", follow, want=W, ndof=1, incs=1, cycl=2, maxcalls=5, few=2, step=True, fac=(1.0, 0.125, 8.0, 0.5), covers=("given-up", "end"), bounds="adaptive step width with one possible reduction: at most 4 attempts, every sequence of answers"),
    Scn("attempts-adaptive-locked", follow, want=W, ndof=1, incs=1, cycl=2, maxcalls=9, jfix=1, few=2, step=True, fac=(1.0, 0.125, 2.0, 0.5), covers=("given-up", "end"), bounds="adaptive step width with three possible reductions, control locked: at most 8 attempts"),
    Scn("single-attempt", follow, want=W, ndof=1, incs=2, cycl=1, maxcalls=3, few=2, step=True, fac=(1.0, 0.125, 8.0, 0.5), covers=("given-up", "end"), bounds="a single attempt per increment"),
    Scn("not-a-number", follow, want=W, ndof=1, incs=1, cycl=2, maxcalls=3, few=1, nan=True, covers=("nan", "given-up", "end"), bounds="failed answers that are not numbers (singular matrix)"),
    Scn("not-a-number-pre", follow, want=W, ndof=1, incs=1, cycl=2, maxcalls=3, few=1, nan=True, jpre=True, covers=("nan", "end"), bounds="failed answers that are not numbers, pre-identified control component"),
    Scn("not-a-number-adaptive", follow, want=W, ndof=1, incs=1, cycl=2, maxcalls=5, few=1, nan=True, step=True, fac=(1.0, 0.125, 8.0, 0.5), covers=("nan", "given-up", "end"), bounds="failed answers that are not numbers, adaptive step width"),
    Scn("twelve-increments", follow, want=W, ndof=1, incs=12, cycl=2, maxcalls=12, jfix=1, few=1, ok=(1,), vals="zero", xlimit=(1, "any"), covers=("limit", "all-increments", "end"), bounds="12 increments with any stop limit, control component locked"),
    Scn("twelve-attempts", follow, want=W, ndof=1, incs=1, cycl=12, maxcalls=12, vals="half", ok=(1,), covers=("given-up", "outside", "end"), bounds="1 increment, 12 attempts outside or inside the limits"),
    Scn("after-another-model", follow, want=W, ndof=1, incs=2, cycl=2, maxcalls=3, few=1, xlimit=(1, 1.0), decoy=True, covers=("limit", "all-increments", "end"), bounds="after a run of another model; 2 increments with a stop limit"),
    Scn("long", follow, want=W, ndof=1, steps=2, incs=2, cycl=2, maxcalls=5, few=2, xlimit=((1, 1.0), (2, 0.5)), covers=("limit", "all-increments", "end", "given-up"), bounds="2 steps of 2 increments, up to 5 solver calls", tier="thorough"),
    Scn("attempts-adaptive-long", follow, want=W, ndof=1, incs=1, cycl=3, maxcalls=8, few=2, step=True, fac=(2.0, 0.25, 4.0, 0.5), covers=("given-up", "end"), bounds="adaptive step width", tier="thorough"),
]
