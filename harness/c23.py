"""C23: settings reach the solution process."""
from .common import *

def bar(steps=1, ndof=2):
    def build(M):
        define(M, [(1, (0.0, 0.0, 0.0)), (2, (64.0, 0.0, 0.0))], [El(1, (1, 2), 1.0, 1, [1.0])], [(1, (0, 0, 0)), (2, (1, 1 if ndof == 2 else 0, 0))], [(2, (1.0, 0.5, 0.0) * steps)])
        M.Settings.nsteps = steps
    return build

def control(env, F, J, x0, n):
    "control component, its sign and step as handed to the solver"
    row = J(x0)[n - 1]
    one = [i for i in range(n) if env.truth(row[i] == 1)]
    env.check(len(one) == 1 and all(env.truth(row[i] == 0) for i in range(n) if i != one[0]), "control row with a single one")
    if len(one) != 1: raise Stop()
    return one[0], -F(x0)[n - 1]

def numbers(env, ndof=2, js=(None, 1, -2, 3, -3), fixed=(False, True), pre=(False, True), logs=(0, 1, 2, 3), digits=((8, 8), (4, 11)), nfevs=(8, 3), steps=1):
    "control component, step limits, tolerances, iteration limit, overshoot tolerance, any log level"
    n = ndof + 1
    j0, fx, jpre, log = env.choice("j0", list(js)), env.choice("fixed", list(fixed)), env.choice("pre", list(pre)), env.choice("log", list(logs))
    dg = env.choice("digits", list(digits))
    nfev = env.choice("nfev", list(nfevs))
    if fx and j0 is None: j0 = n if env.flag("last") else None
    du, dl, tol = env.real("du", pos=True), env.real("dl", pos=True), env.real("tol", lo=1, hi=2)
    dx = [du] * ndof + [dl]
    j = n if j0 is None else j0
    idx, sg = abs(j) - 1, 1 if j > 0 else -1
    box = {"acc": 0, "calls": 0, "done": False}
    def script(k, F, J, x, M, call):
        x0 = [0.0] * n
        first = k == 0
        isp = jpre and not fx and k == 0
        box["calls"] += 1
        env.check(not box["done"], "one increment only")
        if box["done"]: raise Stop()
        env.eq([call["ftol"], call["xtol"]], [10.0**-dg[0], 10.0**-dg[1]], "tolerances: ten to the minus the configured digits", scale=0)
        env.check(call["nfev"] == (1 if isp else nfev - 1 if jpre and not fx and k == 1 else nfev), "iteration limit: %s iterations allowed" % call["nfev"])
        i, stp = control(env, F, J, x0, n)
        if first or fx:
            env.check(i == idx, "control component %d is used, %s is configured" % (i + 1, j))
            env.eq(stp, sg * dx[idx], "step of the control component is the configured limit with the configured sign")
        else: env.eq(env.abs(stp), dx[i], "step of the control component is the configured limit")
        if k == 2: raise Stop("enough")
        if isp:
            # linearised solution: control component only, not converged
            D = [0.0] * n
            D[i] = stp
            return D, False, 1, 1.0, 1.0
        # the answer: the control component moves by any multiple of its limit
        q = env.real("q%d" % k, 0.5, 3)
        D = [0.0] * n
        D[i] = q * stp
        if at_most(env, q, tol): box["acc"] += 1; box["done"] = True; env.cover("inside")
        else: env.cover("outside"); box["rej"] = box.get("rej", 0) + 1
        return D, True, 2, 0.0, 0.0
    M = drive(env, bar(ndof=ndof), script, log=log, j_pre=jpre, j_fixed=fx, j0=j0, du=du, dlpf=dl, dxtol=tol, incs=1, cycl=2, nfev=nfev, ftol=dg[0], xtol=dg[1], stepcontrol=False)
    env.check(len(M.Results.R) == 1 + box["acc"], "an increment is accepted if and only if it stays within the overshoot tolerance")
    env.cover("end")

def counts(env, steps=2, incs=(2, 1), limits=None, comp=(1,), logs=(0, 2), jfix=True):
    "increments and stop limits per step; every attempt is accepted"
    log = env.choice("log", list(logs))
    per = incs if isinstance(incs, tuple) else (incs,) * steps
    lims = None
    kw = {}
    if limits:
        lims = [(comp[s % len(comp)], env.real("lim%d" % s, 0, 4)) for s in range(steps)]
        if limits == "same": lims = [lims[0]] * steps
        kw = dict(xlimit=lims[0] if limits == "same" else tuple(lims))
    sg = env.choice("sign", [1, -1])
    st = dict(step=0, n=[0] * steps, over=False, x=[0.0, 0.0])
    def script(k, F, J, x, M, call):
        while st["step"] < steps and (st["over"] or st["n"][st["step"]] == per[st["step"]]):
            st["step"] += 1; st["over"] = False; st["x"] = [st["x"][0], 0.0]
        s = st["step"]
        env.check(s < steps, "no increment after the last one of the last step")
        if s >= steps: raise Stop()
        env.check(M.Analysis.step == s + 1, "increment %d of step %d is computed in step %s" % (st["n"][s] + 1, s + 1, M.Analysis.step))
        if M.Analysis.step != s + 1: raise Stop()
        st["n"][s] += 1
        new = [st["x"][0] + env.real("u%d" % k, 0.25, 0.75), st["x"][1] + sg * env.real("l%d" % k, 1, 2)]
        st["x"] = new
        if lims:
            c, l = lims[s]
            if not at_most(env, env.abs(new[c - 1]), l): st["over"] = True; env.cover("limit")
        return new, True, 1, 0.0, 0.0
    M = drive(env, bar(steps, 1), script, log=log, j_pre=False, j_fixed=True, j0=1, du=8.0, dlpf=8.0, dxtol=1.0, incs=incs, cycl=2, stepcontrol=False, **kw)
    while st["step"] < steps and (st["over"] or st["n"][st["step"]] == per[st["step"]]): st["step"] += 1; st["over"] = False
    env.check(st["step"] == steps, "every step has its configured number of increments")
    got = [r.step for r in M.Results.R[1:]]
    env.eq(got, [s + 1 for s in range(steps) for _ in range(st["n"][s])], "results per step")
    env.cover("end"); env.cover("n" + "".join(map(str, st["n"])))

def every(env, steps=3, js=(None, 1, -1, -2), fixed=(False, True), pre=(False, True), digits=((8, 8), (4, 11)), nfevs=(8, 3), log=0):
    "control component, step limits, tolerances and iteration limits hold in every step"
    j0, fx, jpre = env.choice("j0", list(js)), env.choice("fixed", list(fixed)), env.choice("pre", list(pre))
    dg, nfev = env.choice("digits", list(digits)), env.choice("nfev", list(nfevs))
    if fx and j0 is None: j0 = 2
    du, dl, tol = env.real("du", pos=True), env.real("dl", pos=True), env.real("tol", lo=1, hi=2)
    j = 2 if j0 is None else j0
    idx, sg = abs(j) - 1, 1 if j > 0 else -1
    st = dict(step=-1, x=[0.0, 0.0], acc=0, new=True)
    def script(k, F, J, x, M, call):
        if st["new"]: st.update(step=st["step"] + 1, x=[st["x"][0], 0.0], sub=0, new=False)
        env.check(M.Analysis.step == st["step"] + 1, "call %d is made in step %s" % (k + 1, M.Analysis.step))
        if M.Analysis.step != st["step"] + 1: raise Stop()
        isp = jpre and not fx and st["sub"] == 0
        env.eq([call["ftol"], call["xtol"]], [10.0**-dg[0], 10.0**-dg[1]], "tolerances in step %d" % (st["step"] + 1), scale=0)
        env.check(call["nfev"] == (1 if isp else nfev - 1 if jpre and not fx else nfev), "iteration limit in step %d: %s iterations allowed" % (st["step"] + 1, call["nfev"]))
        i, stp = control(env, F, J, st["x"], 2)
        env.check(i == idx, "control component %d is used in step %d, %s is configured" % (i + 1, st["step"] + 1, j))
        env.eq(stp, sg * (dl if i else du), "step of the control component in step %d" % (st["step"] + 1))
        if i != idx: raise Stop()
        new = list(st["x"])
        if isp:
            st["sub"] = 1
            new[i] = new[i] + stp
            return new, False, 1, 1.0, 1.0
        q = env.real("q%d" % st["step"], 0.5, 3)
        new[i] = new[i] + q * stp
        st["new"] = True
        if at_most(env, q, tol): st["acc"] += 1; st["x"] = new; env.cover("inside")
        else: env.cover("outside")
        return new, True, 2, 0.0, 0.0
    M = drive(env, bar(steps, 1), script, log=log, j_pre=jpre, j_fixed=fx, j0=j0, du=du, dlpf=dl, dxtol=tol, incs=1, cycl=1, nfev=nfev, ftol=dg[0], xtol=dg[1], stepcontrol=False)
    env.check(st["step"] == steps - 1 and st["new"], "all steps are run")
    env.check(len(M.Results.R) == 1 + st["acc"], "an increment is accepted if and only if it stays within the overshoot tolerance")
    env.cover("end")

def recycles(env, cycls=(1, 2, 3, 4), logs=(0, 1, 2, 3), fixed=(False, True), first=0):
    "attempts outside the limits are repeated up to the configured number"
    cycl, log, fx = env.choice("cycl", list(cycls)), env.choice("log", list(logs)), env.choice("fixed", list(fixed))
    good = env.choice("good", list(range(first, max(cycls) + 1)))       # attempt that stays inside
    box = {"k": 0, "x": [0.0, 0.0], "acc": 0}
    def script(k, F, J, x, M, call):
        env.check(k < cycl, "more than %d attempts" % cycl)
        if k >= cycl: raise Stop()
        box["k"] += 1
        i, stp = control(env, F, J, [0.0, 0.0], 2)
        D = [0.0, 0.0]
        q = env.real("q%d" % k, 0.5, 1) if k == good else env.real("p%d" % k, 1.5, 3)
        D[i] = q * stp
        if k == good: box["acc"] = 1
        return D, True, 2, 0.0, 0.0
    M = drive(env, bar(1, 1), script, log=log, j_pre=False, j_fixed=fx, j0=1, du=1.0, dlpf=1.0, dxtol=1.25, incs=1, cycl=cycl, stepcontrol=False)
    env.check(box["k"] == min(cycl, good + 1), "%d attempts, %d are configured" % (box["k"], cycl))
    env.check(len(M.Results.R) == 1 + box["acc"], "results")
    env.cover("end"); env.cover("all" if box["k"] == cycl and not box["acc"] else "some")

def widths(env, logs=(0, 2), what="reduce"):
    "parameters of the adaptive step width"
    log = env.choice("log", list(logs))
    minfac, red = env.real("minfac", lo=0, hi=1), env.real("reduce", lo=1, hi=64)
    maxfac, inc = env.real("maxfac", lo=1, hi=64), env.real("increase", lo=0, hi=4)
    env.assume(minfac > 0)
    du = env.real("du", pos=True)
    it = env.int("it", 1, 8)
    on = env.flag("on")
    def run(maxfac, inc):
        seen = []
        def script(k, F, J, x, M, call):
            if k == 2: raise Probe()
            if seen and what == "increase": seen.append(control(env, F, J, [seen[0], 0.0], 2)[1])
            else: seen.append(control(env, F, J, [0.0, 0.0], 2)[1])
            if len(seen) == 2: raise Probe()
            return [seen[0], 0.0], what == "increase", it, 0.0, 0.0
        n = 0
        try: drive(env, bar(1, 1), script, log=log, j_pre=False, j_fixed=True, j0=1, du=du, dlpf=du, dxtol=1.0, incs=3, cycl=4, nfev=8, stepcontrol=on, maxfac=maxfac, minfac=minfac, reduce=red, increase=inc)
        except Probe: n = 1
        return seen, n
    seen, n = run(maxfac, inc)
    env.eq(seen[0], du, "the first attempt uses the configured limit")
    if what == "reduce":
        if not on:
            env.check(n == 0 and len(seen) == 1, "without adaptive control a failed attempt with locked control component ends the step")
            env.cover("off"); return
        if env.truth(minfac == 1): return
        env.check(len(seen) == 2, "a failed attempt is repeated")
        if len(seen) < 2: return
        f = 1 / red
        if at_most(env, f, minfac): f = minfac; env.cover("minimum")
        else: env.cover("reduced")
        env.eq(seen[1], f * du, "reduced by the configured factor, not below the configured minimum")
        return
    env.check(len(seen) == 2, "the next increment follows")
    if len(seen) < 2: return
    if not on:
        env.eq(seen[1], du, "limits do not change without adaptive control"); env.cover("off"); return
    # unlimited and with unit increase: the configured increase scales the growth
    one, _ = run(1024.0, 1.0)
    c = one[1] / du - 1
    env.le(0, c, "growth"); env.le(c, 1, "growth by at most the configured increase")
    f = 1 + c * inc
    if at_most(env, maxfac, f, strict=True): f = maxfac; env.cover("maximum")
    else: env.cover("increased")
    env.eq(seen[1], f * du, "growth is proportional to the configured increase, up to the configured maximum")
    if env.truth(it < 8): env.check(c > 0, "growth after quick convergence")

SCENARIOS = [
    Scn("numbers", numbers, covers=("inside", "outside", "end"), digits=((8, 8),), nfevs=(8,), bounds="step limits and overshoot tolerance arbitrary; control components +-1..3 or none, locked or not, with and without pre-identification, log levels 0..3; 2 free DOF, 1 increment"),
    Scn("tolerances", numbers, covers=("inside", "outside", "end"), js=(None,), fixed=(False,), logs=(0,), digits=((8, 8), (4, 11), (2.5, 1), (13, 12), (9, 15)), nfevs=(2, 3, 8, 20, 300), bounds="digits of the tolerances, iteration limits 2..300"),
    Scn("increments", counts, steps=3, incs=(1, 3, 2), covers=("end", "n132"), bounds="3 steps with 1, 3, 2 increments"),
    Scn("increments-scalar", counts, steps=2, incs=2, covers=("end", "n22"), bounds="2 steps of 2 increments, one setting for all"),
    Scn("limits", counts, steps=2, incs=(2, 3), limits="each", comp=(1, 2), covers=("end", "limit", "n23", "n11"), bounds="stop limits per step for different components, arbitrary limits and increments"),
    Scn("limits-scalar", counts, steps=2, incs=2, limits="same", comp=(2,), covers=("end", "limit"), bounds="one stop limit for all steps"),
    Scn("limits-last", counts, steps=2, incs=2, limits="each", comp=(0, 1), covers=("end", "limit"), bounds="component 0 is the load factor (the last one)"),
    Scn("every-step", every, covers=("inside", "outside", "end"), bounds="control component, step limits, tolerances, iteration limit, overshoot tolerance in each of 3 steps; limits and tolerance arbitrary"),
    Scn("limits-of-many-steps", counts, steps=5, incs=(2, 1, 1, 1, 2), logs=(0,), limits="each", comp=(1, 2, 2, 1, 2), covers=("end", "limit", "n21112"), bounds="5 steps with own numbers of increments and stop limits"),
    Scn("recycles", recycles, covers=("end", "all", "some"), bounds="1..4 recycles, control locked or not, log levels 0..3"),
    Scn("recycles-many", recycles, cycls=(12, 25), logs=(0, 2), fixed=(False,), first=5, covers=("end", "all", "some"), bounds="12 and 25 recycles, the attempt that stays inside is the 6th to the 26th"),
    Scn("reduce", widths, what="reduce", covers=("off", "minimum", "reduced"), bounds="all step width parameters arbitrary, failed first attempt"),
    Scn("increase", widths, what="increase", covers=("off", "maximum", "increased"), bounds="all step width parameters arbitrary, accepted first attempt with any number of iterations"),
    Scn("numbers-all", numbers, covers=("inside", "outside", "end"), js=(None, 1, -1, 2, -2, 3, -3), digits=((8, 8), (3, 12)), nfevs=(2, 8), bounds="all combinations", tier="thorough"),
    Scn("limits-three", counts, steps=3, incs=(2, 1, 2), limits="each", comp=(1, 2, 0), covers=("end", "limit"), bounds="3 steps", tier="thorough"),
]
