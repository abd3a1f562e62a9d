"""C11: accepted increments are converged and inside the step limits."""
from .path import *

W = ("limits", "exit")
SCENARIOS = [
    Scn("free", follow, want=W, ndof=1, incs=2, cycl=2, maxcalls=3, free_dx=True, covers=("accepted", "outside", "failed", "switched", "end"), bounds="1 free DOF, control component free, 2 increments, up to 3 solver calls: success flags, points, step limits and overshoot tolerance arbitrary"),
    Scn("free-two-dof", follow, want=W, ndof=2, incs=1, cycl=3, maxcalls=2, few=2, covers=("accepted", "outside", "switched"), bounds="2 free DOF, 1 increment, up to 2 solver calls"),
    Scn("many-dof", follow, want=W, ndof=8, incs=2, cycl=3, maxcalls=2, vals="one", ok=(1,), tol=1.0, covers=("accepted", "outside", "switched"), bounds="8 free DOF of 3 nodes, 2 increments, up to 2 solver calls, every component beyond its limit in turn"),
    Scn("many-dof-locked", follow, want=W, ndof=8, incs=1, cycl=2, maxcalls=1, vals="one", ok=(1,), jfix=5, covers=("accepted", "end"), bounds="8 free DOF, control component locked: the other components are not limited"),
    Scn("locked", follow, want=W, ndof=2, jfix=-1, incs=2, cycl=2, maxcalls=2, covers=("accepted", "end"), bounds="2 free DOF, control component locked to -1"),
    Scn("locked-any", follow, want=W, ndof=1, jfix=2, incs=2, cycl=2, maxcalls=2, contract=False, covers=("accepted", "outside", "end"), bounds="control component locked, answers not bound to the control equation"),
    Scn("pre-identified", follow, want=W, ndof=1, jpre=True, incs=2, cycl=2, maxcalls=3, few=2, covers=("accepted", "accepted-pre", "end"), bounds="control component pre-identified, 2 increments, up to 3 solver calls"),
    Scn("pre-identified-recycles", follow, want=W, ndof=1, jpre=True, incs=1, cycl=4, maxcalls=5, few=1, vals="half", first_ok=False, covers=("end", "outside", "failed"), bounds="control component pre-identified, up to 4 attempts of one increment, failed answers and converged ones outside or inside the limits"),
    Scn("initial-control", follow, want=W, ndof=2, j0=-2, incs=1, cycl=2, maxcalls=1, covers=("accepted", "end"), bounds="initial control component -2, not locked"),
    Scn("after-another-model", follow, want=W, ndof=1, incs=2, cycl=2, maxcalls=2, decoy=True, covers=("accepted", "outside", "switched"), bounds="as free, after a run of another model with the same labels; up to 2 solver calls"),
    Scn("adaptive", follow, want=W, ndof=1, step=True, incs=2, cycl=2, maxcalls=3, covers=("accepted", "outside", "failed", "end"), bounds="adaptive step width, up to 3 solver calls"),
    Scn("pre-identified-long", follow, want=W, ndof=1, jpre=True, incs=2, cycl=2, maxcalls=4, covers=("accepted", "accepted-pre", "end"), bounds="control component pre-identified, 2 increments, up to 4 solver calls", tier="thorough"),
    Scn("no-contract", follow, want=W, ndof=1, contract=False, incs=2, cycl=2, maxcalls=3, covers=("accepted", "outside", "failed", "switched", "end"), bounds="answers not bound to the control equation, up to 3 solver calls", tier="thorough"),
    Scn("free-long", follow, want=W, ndof=1, incs=3, cycl=3, maxcalls=5, covers=("accepted", "outside", "failed", "switched", "end"), bounds="1 free DOF, 3 increments, up to 5 solver calls", tier="thorough"),
    Scn("free-two-dof-long", follow, want=W, ndof=2, incs=2, cycl=3, maxcalls=3, covers=("accepted", "outside", "switched", "end"), bounds="2 free DOF, up to 3 solver calls", tier="thorough"),
]
