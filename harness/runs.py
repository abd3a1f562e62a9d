"""Runs of a bar structure with one free degree of freedom under an unconstrained
Newton solver: every answer of the solver (success or not, any point) is explored.
An independent book-keeping says which answers have to become results."""
from .common import *

class Bars:
    "parallel bars of length 1 along x between node 1 (fixed) and node 2 (free in x)"
    def __init__(self, env, mats, steps, forces="sym", order=None):
        self.env, self.mats, self.steps = env, mats, steps
        npar = 3 if 2 in mats else 1
        self.par = []
        for k, m in enumerate(mats):
            self.par.append(([8.0, 4.0 * k, 1.0 + k] if m == 2 else [4.0 + k] + [0.375, 0.0625][:npar - 1], 1.0 + 0.5 * k))
        self.order = order or list(range(len(mats)))
        if forces == "sym": self.f = [[env.real("f%d_%d" % (s, c), -8, 8) for c in range(3)] for s in range(steps)]
        else: self.f = [[float(v) for v in forces[s]] for s in range(steps)]
    def build(self, M):
        els = [El(10 - k, (1, 2) if k % 2 == 0 else (2, 1), self.par[k][1], self.mats[k], self.par[k][0]) for k in self.order]
        define(M, [(2, (1.0, 0.0, 0.0)), (1, (0.0, 0.0, 0.0))], els, [(2, (1, 0, 0)), (1, (0, 0, 0))], [(2, tuple(c for f in self.f for c in f))])
        M.Settings.nsteps = self.steps
    def virgin(self): return [(self.par[k][0][2] if self.mats[k] == 2 else 0.0, 0.0) for k in self.order]
    def update(self, u, st):
        "-> per element stress, force, new history (None: elastic)"
        out = []
        for row, k in enumerate(self.order):
            p, A = self.par[k]
            if self.mats[k] == 1: s, n = p[0] * u, None
            else:
                s, y, e, _ = isotropic(self.env, p[0], p[1], st[row][0], st[row][1])(u)
                n = (y, e)
            out.append((s, s * A, n))
        return out

class Call:
    "one call of the Newton solver"

def history(env, want, mats=(2,), steps=1, incs=1, cycl=2, maxcalls=3, jfix=True, probes=1, forces="sym", lpf="pos", u="any", du=1.0, dlpf=1.0, order=None, log=0, jpre=False, pcalls=9, moves=True, fail=True, xlimit=None, decoy=False):
    B = Bars(env, list(mats), steps, forces, order)
    ref = dict(step=0, inc=0, z=0, x0=[0.0, 0.0], st=B.virgin(), acc=[], ends=[], pre=False)
    has2 = 2 in mats
    dx = [du, dlpf]
    tol = 1.25
    box = {"n": 0}
    frozen = []
    def const(s):
        return [sum((ref["ends"][t] * B.f[t][c] for t in range(s)), 0.0) for c in range(3)]
    def end_step():
        ref["ends"].append(ref["acc"][-1]["lpf"] if ref["acc"] and ref["acc"][-1]["step"] == ref["step"] else 0.0)
        ref["step"] += 1; ref["inc"] = 0; ref["z"] = 0; ref["pre"] = False
        ref["x0"] = [ref["x0"][0], 0.0]
    def script(k, F, J, x, M, call):
        n = box["n"]; box["n"] += 1
        if n >= maxcalls: raise Stop("bound on the number of solver calls")
        s = ref["step"]
        env.check(s < steps, "no further step after the last one")
        if s >= steps: raise Stop()
        x0 = ref["x0"]
        pre = jpre and not jfix and ref["z"] == 0 and not ref["pre"]
        if "start" in want and not (ref["pre"] and ref["z"] == 0):
            env.eq([x[0], x[1]], x0, "start point of an attempt")
        if "frozen" in want: 
            R = M.Results.R
            for i in range(len(frozen), len(ref["acc"]) if s else 0):
                if ref["acc"][i]["step"] < s: frozen.append(snap(R[i + 1], has2))
        if has2 and "state" in want:
            check_state(env, B, M.Analysis.state_v, ref["st"], "history at the start of an attempt", not ref["acc"])
        for p in range(probes if n < pcalls else 0):
            y = [env.real("p%d_%d" % (n, p), -0.5, 2), env.real("q%d_%d" % (n, p), -4, 4)]
            Fv = F(y)
            if "load" in want: check_load(env, B, Fv, y, s, const(s), ref["st"])
            if "evals" in want and p == 0: J(y)
            if has2 and "state" in want: check_state(env, B, M.Analysis.state_v, ref["st"], "history after evaluating residual and matrix", not ref["acc"])
        # the answer
        v = env.real("u%d" % n, -0.5, 2)
        if u == "grow": v = (1 + n) / 8 + env.real("w%d" % n, 0, 1 / 16)
        elif u == "up": env.assume(v > x0[0])
        elif moves: env.assume(v != x0[0])
        dl = env.real("l%d" % n, pos=True) if lpf == "pos" else 0.5 + env.real("g%d" % n, 0, 0.25) if lpf == "grow" else 0.0 if lpf == "zero" else (-0.25 if ref["inc"] else 0.75) + env.real("h%d" % n, -0.125, 0.125) if lpf == "fall" else env.real("l%d" % n, -4, 4)
        new = [v, x0[1] + dl]
        ok = env.flag("ok%d" % n) if fail else True
        # which answers are accepted
        inside = at_most(env, env.abs(v - x0[0]), tol * du)
        if not jfix: inside = inside and at_most(env, env.abs(new[1] - x0[1]), tol * dlpf)
        if pre: ref["pre"] = True
        if ok and inside:
            ref["pre"] = False
            if pre: env.cover("accepted-pre")
            el = B.update(v, ref["st"])
            ref["st"] = [e[2] or ref["st"][i] for i, e in enumerate(el)]
            ref["acc"].append(dict(u=v, lpf=new[1], st=ref["st"], el=el, step=s, const=const(s), u0=x0[0]))
            ref["x0"] = new; ref["z"] = 0; ref["inc"] += 1
            env.cover("accepted")
            n_inc = incs[s] if isinstance(incs, tuple) else incs
            lim = (xlimit[s] if isinstance(xlimit[0], tuple) else xlimit) if xlimit else None
            if lim and not at_most(env, env.abs(new[lim[0] - 1]), lim[1]): env.cover("limit"); end_step()
            elif ref["inc"] == n_inc: end_step()
        elif pre: env.cover("refused-pre")
        else:
            env.cover("refused")
            ref["z"] += 1
            # without adaptive step width a failed attempt ends the step (locked control component)
            if ref["z"] == cycl or (jfix and not ok): env.cover("aborted"); end_step()
            elif not jfix and not ok: raise Stop("not needed")
        return new, ok, 1, 0.0, 0.0
    kw = dict(xlimit=xlimit) if xlimit else {}
    def go(M=None):
        return drive(env, B.build, script, log=log, j_pre=jpre, j_fixed=jfix, j0=1 if jfix else None, du=du, dlpf=dlpf, dxtol=tol, incs=incs, cycl=cycl, stepcontrol=False, decoy=decoy, **kw)
    M = go()
    R = M.Results.R
    acc = ref["acc"]
    env.check(ref["step"] == steps, "all steps have been run and each to its end")
    env.check(len(R) == len(acc) + 1, "%d results, expected the undeformed state and the accepted increments" % len(R))
    if len(R) != len(acc) + 1: return M
    env.cover("steps%d-accepted%d" % (steps, len(acc)))
    if "snap" in want:
        check_zero(env, R[0], has2)
        access(env, M, 0, R[0], [0.0, 0.0], [0.0])
    for i, a in enumerate(acc):
        r = R[i + 1]
        if "snap" in want or "point" in want:
            env.eq(r.U, [[0.0, 0.0, 0.0], [a["u"], 0.0, 0.0]], "displacements of result %d" % (i + 1))
            env.eq(r.lpf, a["lpf"], "load factor of result %d" % (i + 1))
        if has2 and ("snap" in want or "state" in want):
            check_state(env, B, r.state_v, a["st"], "history of result %d" % (i + 1))
        if "snap" in want or "load" in want:
            N = sum((e[1] for e in a["el"]), 0.0)
            env.eq(r.r, [[-N, 0.0, 0.0], [N, 0.0, 0.0]], "internal forces of result %d" % (i + 1))
            ext = [a["const"][c] + a["lpf"] * B.f[a["step"]][c] for c in range(3)]
            env.eq(r.g, [N, 0.0, 0.0] + [ext[0] - N, ext[1], ext[2]], "out-of-balance forces of result %d" % (i + 1))
        if "snap" in want:
            env.eq(r.stretch, [[1 + a["u"]]] * len(mats), "stretches of result %d" % (i + 1))
            env.eq(r.element_stress, [[e[0]] for e in a["el"]], "stresses of result %d" % (i + 1))
            env.eq(r.element_force, [[e[1]] for e in a["el"]], "normal forces of result %d" % (i + 1))
            env.eq(r.step, a["step"] + 1, "step number of result %d" % (i + 1))
            env.eq(r.ExtForces.forces, [[0.0] * 3, B.f[a["step"]]], "reference loads of result %d" % (i + 1))
            env.eq(r.ExtForces.forces_const, [[0.0] * 3, a["const"]], "loads kept from earlier steps of result %d" % (i + 1))
            env.eq(r.U0, R[i].U, "start-of-increment displacements of result %d" % (i + 1))
            access(env, M, i + 1, r, [a["u"], a["lpf"]], [N])
    for i, f in enumerate(frozen):
        if i < len(acc):
            for (n, old), (_, now) in zip(f, snap(R[i + 1], has2)): env.eq(now, old, "%s of result %d after later computation" % (n, i + 1))
    if "load" in want or "ends" in want:
        env.check(len(M.Results.step_lpf_end) == steps, "one end factor per step")
        env.eq(M.Results.step_lpf_end, ref["ends"], "load factors at the end of the steps")
    env.observe("U", [r.U for r in R]); env.observe("lpf", [r.lpf for r in R])
    if has2: env.observe("state", [r.state_v for r in R])
    return M

def access(env, M, i, r, x, f):
    "the methods that give access to a result say the same as its tables"
    env.check(M.Results.get_result(i) is M.Results.R[i], "get_result(%d)" % i)
    t = " of result %d" % i
    env.eq(r.get_U(), r.U, "get_U()" + t); env.eq(r.get_r(), r.r, "get_r()" + t)
    env.eq(r.get_U(flat=True), [c for u in r.U for c in u], "flat displacements" + t)
    env.eq(r.get_r(flat=True), [c for u in r.r for c in u], "flat internal forces" + t)
    env.eq(r.get_U(red=True), x[:-1], "displacements at free degrees of freedom" + t)
    env.eq(r.get_r(red=True), f, "internal forces at free degrees of freedom" + t)

def check_state(env, B, got, st, msg, virgin=False):
    for row, k in enumerate(B.order):
        y, e = got[row, 0], got[row, 1]
        if B.mats[k] == 1: continue
        if virgin and not env.is_sym(y) and y == 0: y = B.par[k][0][2]
        env.eq([y, e], list(st[row]), msg + ", element row %d" % row)

def check_load(env, B, Fv, y, s, const, st):
    N = sum((e[1] for e in B.update(y[0], st)), 0.0)
    env.eq(Fv[0], N - (const[0] + y[1] * B.f[s][0]), "residual at the free degree of freedom in step %d" % (s + 1))

def check_zero(env, r, has2):
    env.eq(r.U, [[0.0] * 3] * 2, "undeformed state: displacements")
    env.eq(r.r, [[0.0] * 3] * 2, "undeformed state: internal forces")
    env.eq(r.element_stress, [[0.0]] * len(r.element_stress), "undeformed state: stresses")
    env.eq(r.element_force, [[0.0]] * len(r.element_force), "undeformed state: normal forces")
    env.eq(r.lpf, 0.0, "undeformed state: load factor")
    if has2: env.eq(r.state_v, [[0.0, 0.0]] * len(r.state_v), "undeformed state: history")

def snap(r, has2):
    out = [("displacements", r.U.copy()), ("start displacements", r.U0.copy()), ("internal forces", r.r.copy()), ("out-of-balance forces", r.g.copy()), ("stretches", r.stretch.copy()),
           ("stresses", r.element_stress.copy()), ("normal forces", r.element_force.copy()), ("load factor", r.lpf), ("step", r.step), ("reference loads", r.ExtForces.forces.copy()), ("kept loads", r.ExtForces.forces_const.copy())]
    if has2: out.append(("history", r.state_v.copy()))
    return out

def real_solver(env, mats=(2,), steps=2, incs=2, cycl=1, nfev=3, jpre=True, jfix=None, du=0.25, dlpf=1.0, maxcalls=12, want=("start", "point"), dxtol=1.25, stepcontrol=False, digits=6, f2=True, observe=True):
    """The same runs with the Newton solver of the code itself (the linear systems are
    solved exactly): what it is handed and what becomes a result is watched."""
    B = Bars(env, list(mats), steps, forces=[[1.0, 0.0, 0.0]] * steps)
    B.f = [[env.real("f%d" % s, 0.25, 16) if s == 0 or f2 else 2.0, 0.0, 0.0] for s in range(steps)]
    calls, box = [], {}
    def hook(m):
        real = m.newton
        def newton(*a, **k):
            f, dfdx, x, nfev, ftol, xtol, verbose, args = handed_to(real, a, k)
            if len(calls) >= maxcalls: raise Stop("bound on the number of solver calls")
            M = box["M"]
            c = dict(step=M.Analysis.step, start=[x[0], x[1]], ftol=ftol)
            calls.append(c)
            r = real(*a, **k)
            c["x"], c["ok"] = [r[0][0], r[0][1]], env.truth(r[1])
            return r
        m.newton = newton
    tp, M = new_model(env, hooks={"trusspy.solvers.zerosearch": hook})
    box["M"] = M
    B.build(M)
    for k, v in dict(j_pre=jpre, j_fixed=jfix is not None, j0=jfix, du=du, dlpf=dlpf, dxtol=dxtol, incs=incs, cycl=cycl, stepcontrol=stepcontrol, nfev=nfev, ftol=digits, xtol=digits).items(): setattr(M.Settings, k, v)
    M.build()
    M.run()
    R = M.Results.R
    ends, n = [], 1
    has2 = 2 in mats
    st, prev, per = B.virgin(), [0.0, 0.0], []
    for s in range(steps):
        mine = [r for r in R[1:] if r.step == s + 1]
        per.append(len(mine))
        first = [c for c in calls if c["step"] == s + 1]
        env.check(bool(first), "every step calls the solver")
        if not first: return
        const = sum((e * B.f[t][0] for t, e in enumerate(ends)), 0.0)
        env.eq(first[0]["start"], [prev[0], 0.0], "start point of step %d" % (s + 1))
        for r in mine:
            u = r.U[1, 0]
            env.eq(r.U0[1, 0], prev[0], "start-of-increment displacements")
            env.check(env.or_(*[env.and_(close_to(env, u, c["x"][0]), close_to(env, r.lpf, c["x"][1])) for c in first if c["ok"]]), "a result is a point returned by the solver as converged")
            el = B.update(u, st)
            st = [e[2] or st[i] for i, e in enumerate(el)]
            if has2: check_state(env, B, r.state_v, st, "history of a result")
            N = sum((e[1] for e in el), 0.0)
            env.eq(r.r[1, 0], N, "internal force of a result")
            g = const + r.lpf * B.f[s][0] - N
            env.eq(r.g[3], g, "out-of-balance force of a result")
            env.le(env.abs(g), 10.0 ** -digits, "equilibrium of a result")
            prev = [u, r.lpf]
        ends.append(prev[1] if mine else 0.0)
        prev = [prev[0], 0.0]
        if len(mine) < incs: env.cover("step-cut-short")
        if len([c for c in first]) > len(mine) and s + 1 < steps and len(mine) < incs and mine: env.cover("next-step-after-failure")
    env.check(len(R) == 1 + sum(per), "results of the steps and the undeformed state, nothing else")
    env.cover("results%d" % (len(R) - 1))
    env.eq(M.Results.step_lpf_end, ends, "load factors at the end of the steps")
    # (the adaptive step width amplifies rounding: nothing to compare there)
    if observe: env.observe("U", [r.U for r in R]); env.observe("lpf", [r.lpf for r in R])

def close_to(env, a, b): return a == b if env.sym else bool(abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b)))
