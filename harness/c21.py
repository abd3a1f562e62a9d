"""C21: log files and log levels."""
from .runs import *

class Fault(Exception): pass
class Kill(BaseException): pass

def bars(M, f, steps, mats=(1,)):
    npar = 3 if 2 in mats else 1
    els = [El(5 - k, (1, 2), 1.0 + k, m, [8.0, 4.0, 1.0] if m == 2 else [4.0] + [0.375, 0.0625][:npar - 1]) for k, m in enumerate(mats)]
    define(M, [(2, (1.0, 0.0, 0.0)), (1, (0.0, 0.0, 0.0))], els, [(2, (1, 0, 0)), (1, (0, 0, 0))], [(2, tuple(f) * steps)])
    S = M.Settings
    S.nsteps, S.cycl, S.j_pre, S.j_fixed, S.j0, S.du, S.dlpf, S.dxtol = steps, 2, False, True, 1, 4.0, 4.0, 1.0

def is_file(env, s, path): return getattr(s, "q", None) == path

def redirect(env, steps=1, incs=2, logs=(0, 1, 2, 3), file=True, kinds=(Fault, Kill), nested=False, numbers="sym", text=False):
    log = env.choice("log", list(logs))
    calls = steps * incs
    kf = env.choice("fault", list(range(calls + 1)))         # calls: no fault
    kind = env.choice("kind", list(kinds)) if kf < calls else None
    box = {"k": 0, "watch": None, "fault": kf}
    def newton(F, J, x, nfev=8, ftol=1e-8, xtol=1e-8, verbose=0, *args):
        k = box["k"]; box["k"] += 1
        if box["watch"]: box["watch"]("while running")
        if k == box["fault"]: raise kind("fault in the equation solver")
        v = [env.real("u%d" % k, 0, 2), env.real("l%d" % k, 0, 2)] if numbers == "sym" else [0.125 * (k + 1), 0.25]
        F(env.arr(v), *args); J(env.arr(v), *args)
        if box["watch"]: box["watch"]("after evaluating residual and matrix")
        return env.arr(v), True, 1, 0.0, 0.0
    tp = env.load(with_newton(newton), record=True)
    W = env.world
    f = vec(env, "f") if numbers == "sym" else [1.0, 0.0, 0.0]
    start = W.stdout
    def model(file, name="job"):
        box["k"] = 0
        return tp.Model(log=log, logfile=True, logfile_name=name) if file else tp.Model(log=log)
    def go(M, watch, out):
        bars(M, f, steps)
        M.Settings.incs = incs
        watch("after the definition")
        box["watch"] = watch
        M.build()
        watch("after building")
        try:
            M.run()
            env.check(kind is None or box["fault"] >= calls, "a failure of the solver ends the run")
        except (Fault, Kill) as e: env.check(type(e) is kind, "the failure is passed on")
        box["watch"] = None
        env.check(W.sys.stdout is out, "standard output after the run is what it was when the model was created")
    n0 = start.n
    if not file:
        M = model(False)
        go(M, lambda w: env.check(W.sys.stdout is start, "standard output unchanged " + w), start)
        env.check(not W.fs.files, "no file is written")
        env.check((start.n > 0) == (log > 0) or log == 0, "output of the run")
        env.cover("failed" if kind else "ended")
        return
    M = model(True)
    def watch(path): return lambda w: env.check(is_file(env, W.sys.stdout, path), "output goes to the log file " + w)
    watch("/cwd/job.md")("after creation")
    if nested:
        first = W.sys.stdout
        M2 = model(True, "inner")
        go(M2, watch("/cwd/inner.md"), first)
        box["k"] = 0
    go(M, watch("/cwd/job.md"), start)
    env.check(start.n == n0, "nothing is printed to standard output")
    env.check(set(W.fs.files) == ({"/cwd/job.md", "/cwd/inner.md"} if nested else {"/cwd/job.md"}), "only the log file is written")
    if log > 0: env.check(len(W.fs.files["/cwd/job.md"]) > 0, "the log file has content")
    if text and not kind:
        t = W.fs.files["/cwd/job.md"]
        box["fault"] = calls
        M3 = model(False)
        go(M3, lambda w: env.check(W.sys.stdout is start, "standard output unchanged " + w), start)
        clean = lambda s: [l.strip() for l in s.split("\n") if l.strip() not in ("", "```") and "time" not in l]
        env.check(clean(t) == clean(start.text()), "the log file has what is printed without it")
    env.cover("failed" if kind else "ended")

def levels(env, mats=(1,), steps=1, incs=2, ncalls=3, step=False, jfix=True, fail=True, logs=(1, 2, 3), files=(False,), u=(0, 2)):
    log = env.choice("log", list(logs))
    file = env.choice("file", list(files))
    f = vec(env, "f")
    def one(log, file):
        box = {"k": 0}
        def newton(F, J, x, nfev=8, ftol=1e-8, xtol=1e-8, verbose=0, *args):
            k = box["k"]; box["k"] += 1
            if k >= ncalls: raise Stop("bound on the number of solver calls")
            v = [env.real("u%d" % k, *u), env.real("l%d" % k, 0, 2)]
            F(env.arr(v), *args); J(env.arr(v), *args)
            return env.arr(v), env.flag("ok%d" % k) if fail else True, 2 + k, 0.0, 0.0
        tp = env.load(with_newton(newton))
        M = tp.Model(log=log, logfile=True) if file else tp.Model(log=log)
        bars(M, f, steps, mats)
        S = M.Settings
        S.incs, S.stepcontrol, S.j_fixed, S.j0 = incs, step, jfix, 1 if jfix else None
        S.dxtol = 1.25
        M.build(); M.run()
        return M
    A, B = one(0, False), one(log, file)
    n = len(A.Results.R)
    env.check(len(B.Results.R) == n, "number of results at log level %d" % log)
    for i, (a, b) in enumerate(zip(A.Results.R, B.Results.R)):
        env.eq(b.U, a.U, "displacements of result %d" % i)
        env.eq(b.lpf, a.lpf, "load factor of result %d" % i)
        env.eq(b.r, a.r, "internal forces of result %d" % i)
        env.eq(b.element_force, a.element_force, "normal forces of result %d" % i)
        if 2 in mats: env.eq(b.state_v, a.state_v, "history of result %d" % i)
        if i:
            env.eq(b.K, a.K, "matrix of result %d" % i)
            env.eq(b.dVmax, a.dVmax, "step limits of result %d" % i)
    env.eq(list(B.Results.step_lpf_end), list(A.Results.step_lpf_end), "end factors of the steps")
    env.observe("U", [r.U for r in B.Results.R])
    env.cover("results%d" % (n - 1))

def iterations(env, nfev=3, n=1):
    "the Newton solver itself: any linear equation with a matrix that is not its derivative (several iterations)"
    tp = env.load()
    newton = env.mod("trusspy.solvers.zerosearch").newton
    log = env.choice("verbose", [1, 2, 3])
    b, c = env.real("b", 1, 4), env.real("c", -4, 4)
    x0 = env.real("x", 0, 4)
    tol = env.real("ftol", pos=True), env.real("xtol", pos=True)
    f = lambda x: env.arr([b * x[0] - c])
    J = lambda x: env.arr([[2.0]])
    out = []
    for v in (0, log):
        out.append(newton(f, J, env.arr([x0]), nfev, tol[0], tol[1], v))
    (x, s, k, fn, xn), (y, t, m, gn, yn) = out
    env.check(bool(s) == bool(t) and k == m, "success and iterations do not depend on the log level")
    env.eq(y, x, "solution does not depend on the log level")
    env.eq([gn, yn], [fn, xn], "norms do not depend on the log level")
    env.cover("converged" if s else "not")

SCENARIOS = [
    Scn("file", redirect, steps=1, incs=2, covers=("ended", "failed"), bounds="log levels 0..3, failure at any of 2 solver calls or none, ordinary exception or interrupt, 1 step"),
    Scn("file-steps", redirect, steps=2, incs=1, covers=("ended", "failed"), bounds="the same with 2 steps"),
    Scn("no-file", redirect, steps=2, incs=1, file=False, covers=("ended", "failed"), bounds="no log file; log levels 0..3, failure at any of 2 solver calls or none"),
    Scn("nested", redirect, steps=1, incs=1, nested=True, covers=("ended", "failed"), bounds="a second model with its own log file inside"),
    Scn("text", redirect, steps=2, incs=2, numbers="given", text=True, covers=("ended", "failed"), bounds="given displacements; content of the file against what is printed without it"),
    Scn("levels", levels, mats=(1,), steps=1, incs=2, ncalls=3, files=(False, True), covers=("results2", "results0"), bounds="log levels 1..3 against 0, with and without file, up to 3 solver calls with arbitrary answers"),
    Scn("levels-plastic", levels, mats=(2, 1), steps=2, incs=1, ncalls=3, fail=False, covers=("results2",), bounds="elastic-plastic and elastic bar, 2 steps"),
    Scn("levels-free", levels, mats=(1,), steps=1, incs=1, ncalls=2, jfix=False, u=(0, 8), covers=("results1",), bounds="control not locked, recycled increments"),
    Scn("levels-adaptive", levels, mats=(1,), steps=1, incs=1, ncalls=2, step=True, u=(0, 8), logs=(2,), covers=("results1", "results0"), bounds="adaptive step width, up to 2 solver calls"),
    Scn("iterations", iterations, nfev=2, covers=("converged", "not"), bounds="the Newton solver on any linear equation with an inexact matrix, up to 2 iterations"),
    Scn("iterations3", iterations, nfev=3, covers=("converged", "not"), bounds="up to 3 iterations", tier="thorough"),
    Scn("levels-adaptive2", levels, mats=(1,), steps=1, incs=2, ncalls=3, step=True, u=(0, 8), logs=(1, 2, 3), covers=("results2", "results0"), bounds="adaptive step width, up to 3 solver calls", tier="thorough", max_paths=10**6),
    Scn("levels-long", levels, mats=(2,), steps=2, incs=2, ncalls=5, logs=(2,), covers=("results4",), bounds="2 steps of 2 increments, up to 5 solver calls", tier="thorough", path_limit=600),
]
