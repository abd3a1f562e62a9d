"""C24: the output tells how the steps went."""
from .path import *
from . import c10

W = ("log",)
def leveled(env, logs, **kw): return follow(env, want=W, log=env.choice("log", list(logs)), **kw)

def summary(env, steps=2):
    "the summary of the model and of the parameters"
    log = env.choice("log", [1, 2])
    on = env.flag("adaptive")
    j0 = env.choice("j0", [None, 2, -1])
    S = dict(incs=env.choice("incs", [1, 40]), cycl=env.int("cycl", 1, 99), nfev=env.int("nfev", 2, 99), du=env.real("du", pos=True), dlpf=env.real("dlpf", pos=True), dxtol=env.real("dxtol", 1, 2),
             xtol=7, ftol=9, minfac=env.real("minfac", 0.125, 1), maxfac=env.real("maxfac", 1, 64), increase=env.real("increase", 0, 4))
    red = env.real("reduce", 1, 64)
    fl = [[env.int("b%d%d" % (i, k), 0, 1) for k in range(3)] for i in range(2)]
    def newton(*a, **k): raise Probe()
    tp, M = new_model(env, hooks=with_newton(newton), log=log, record=True)
    define(M, [(7, (0.0, 0.0, 0.0)), (3, (2.0, 0.0, 0.0)), (5, (4.0, 0.0, 0.0))], [El(1, (7, 3), 1.0, 1, [1.0]), El(4, (5, 3), 1.0, 1, [1.0])], [(7, fl[1]), (3, fl[0]), (5, (1, 0, 0))], [(3, (1.0, 0.5, 0.0))])
    M.build()
    flat = [fl[0][0], fl[0][1], fl[0][2], 1, 0, 0] + fl[1]
    free = [d for d in range(9) if env.truth(flat[d] == 1)]
    text = env.world.stdout.text()
    def row(pat, want, what, at=0):
        g = re.findall(pat, text, re.M)
        env.check(len(g) == (1 if log > 1 else 0), what + " is shown %d times" % len(g))
        for l in g: shows(env, (printed(env, l) or [-1.0])[at], want, what)
    row('"nnodes":(.*)', 3, "number of nodes"); row('"nelems":(.*)', 2, "number of elements"); row('"ndof":(.*)', 9, "degrees of freedom")
    row('"ndof1":(.*)', len(free), "free degrees of freedom"); row('"ndof2":(.*)', 9 - len(free), "locked degrees of freedom")
    for k, v in dict(S, stepcontrol=on, reduce=red, j0=j0, nsteps=1).items(): setattr(M.Settings, k, v)
    env.world.stdout.buf.clear()
    try: M.run()
    except Probe: pass
    text = env.world.stdout.text()
    for k in ("incs", "cycl", "nfev", "du", "dlpf", "dxtol", "xtol", "ftol"): row(r"`%s`\|(.*)" % k, S[k], "parameter " + k)
    if j0: row(r"`j0`\|(.*)", j0, "control component")
    else:
        if log > 1: env.check("LPF" in "".join(re.findall(r"`j0`\|(.*)", text)), "the initial control component is the load factor")
    if on:
        for k in ("minfac", "maxfac", "increase"): row(r"`%s`\|(.*)" % k, S[k], "parameter " + k)
        row(r"`reduce`\|(.*)", 1 / red, "factor of the reduction")
    env.cover("end")

SCENARIOS = [
    Scn("ends", leveled, logs=(0, 1, 2), ndof=1, incs=2, cycl=2, maxcalls=3, few=1, xlimit=(1, 0.5), covers=("says-ERROR", "says-EXIT", "end"), bounds="1 step of 2 increments with a stop limit, up to 3 solver calls, control component free, log levels 0..2"),
    Scn("steps", leveled, logs=(0, 2), ndof=1, steps=2, incs=(1, 2), cycl=1, maxcalls=3, few=1, ok=(0, 1), xlimit=((1, 1.0), (2, 0.25)), covers=("says-ERROR", "says-EXIT", "end"), bounds="2 steps of 1 and 2 increments with their own stop limits, a single attempt each, up to 3 solver calls"),
    Scn("locked", leveled, logs=(1, 3), ndof=1, incs=2, cycl=2, maxcalls=3, jfix=-2, few=2, covers=("says-ERROR", "end"), bounds="control component locked to the load factor, negative direction"),
    Scn("adaptive", leveled, logs=(0, 2), ndof=1, incs=1, cycl=2, maxcalls=4, few=2, step=True, its=True, fac=(1.0, 0.125, 8.0, 0.5), covers=("says-ERROR", "end"), bounds="adaptive step width, every sequence of up to 4 answers, any iteration counts"),
    Scn("three-components", leveled, logs=(2,), ndof=2, incs=1, cycl=2, maxcalls=1, its=True, j0=-2, covers=("end",), bounds="2 free DOF: the components with the largest relative increments, any answer"),
    Scn("pre-identified", leveled, logs=(1, 2), ndof=1, incs=2, cycl=2, maxcalls=3, few=2, jpre=True, its=True, covers=("accepted-pre", "end"), bounds="control component pre-identified"),
    Scn("not-a-number", leveled, logs=(0, 2), ndof=1, incs=1, cycl=2, maxcalls=3, few=1, nan=True, covers=("nan", "says-ERROR", "end"), bounds="answers that are not numbers"),
    Scn("iterations", c10.arb, n=1, nfev=2, logs=(0, 1, 2, 3), say=True, covers=("shown", "converged-1", "converged-2", "failed"), bounds="1 unknown, up to 2 iterations, any function: numbers and residual norms of the iterations"),
    Scn("summary", summary, covers=("end",), bounds="3 nodes, any boundary flags, any parameters: summaries of model and parameters at log level 2"),
    Scn("twelve-increments", leveled, logs=(0, 1, 2), ndof=1, incs=12, cycl=2, maxcalls=12, jfix=1, few=1, ok=(1,), vals="zero", xlimit=(1, "any"), covers=("says-EXIT", "end"), bounds="12 increments with any stop limit"),
    Scn("twelve-attempts", leveled, logs=(1, 2), ndof=1, incs=1, cycl=12, maxcalls=12, vals="half", ok=(1,), covers=("says-ERROR", "end"), bounds="12 attempts of one increment"),
    Scn("twelve-steps", leveled, logs=(2,), ndof=1, steps=12, incs=1, cycl=1, maxcalls=12, jfix=1, few=1, ok=(1,), vals="zero", covers=("end",), bounds="12 steps"),
    Scn("steps-long", leveled, logs=(0, 2), ndof=1, steps=2, incs=2, cycl=2, maxcalls=5, few=2, xlimit=((1, 1.0), (2, 0.5)), covers=("says-ERROR", "says-EXIT", "end"), bounds="2 steps of 2 increments, up to 5 solver calls", tier="thorough"),
]
