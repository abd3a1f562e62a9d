"""Path following under an unconstrained Newton solver (shared by C11, C12, C13).

The structure is one bar from a fixed node to a node that is free in x (and y); all that
matters here is the sequence of solver calls and answers. The control equation of a call is
read from the residual and matrix handed to the solver."""
import math, re
from .common import *

class Att:
    "one attempt: control component, its step, the answer"

def follow(env, want, ndof=1, incs=1, cycl=2, maxcalls=3, jfix=None, jpre=False, step=False, j0=None, fac=(8.0, 0.5, 4.0, 0.5), contract=True, ok=(0, 1), nan=False, span=4, du=0.5, dlpf=0.25, tol=1.25, xlimit=None, its=False, steps=1, moves=True, only=None, vals=None, free_dx=False, first_ok=None, few=0, log=0, decoy=False):
    """fac: maxfac, minfac, reduce, increase"""
    n = ndof + 1
    maxfac, minfac, red, inc = fac
    if free_dx: du, dlpf = env.real("du", pos=True), env.real("dlpf", pos=True)
    if free_dx and "limits" in want: tol = env.real("tol", lo=1, hi=2)
    if xlimit and xlimit[1] == "any": xlimit = (xlimit[0], env.real("xlimit", 0, 8))
    dx0 = [du] * ndof + [dlpf]
    st = dict(x0=[0.0] * n, att=[], acc=[], step=0, incs=0, since=None, ncall=0, over=False, hist=[], ends=[], heads=[])
    nfev = 9 if jpre else 8          # (nfev - n) / nfev stays dyadic
    def n_incs(): return incs[st["step"]] if isinstance(incs, tuple) else incs
    def lim(): return (xlimit[st["step"]] if isinstance(xlimit[0], tuple) else xlimit) if xlimit else None
    attempts_bound = cycl if not step else cycl * (1 + max(0, math.ceil(round(math.log(maxfac / minfac) / math.log(red), 9))))
    def script(k, F, J, x, M, call):
        st["ncall"] += 1
        if st["ncall"] > maxcalls: raise Stop("bound on the number of solver calls")
        ms = M.Analysis.step - 1
        if ms != st["step"]:
            # the step has come to its end
            leave(M)
            env.check(ms == st["step"] + 1 and ms < steps, "steps are run one after the other")
            if ms >= steps: raise Stop()
            st.update(step=ms, att=[], incs=0, over=False, since=None)
            st["x0"] = st["x0"][:-1] + [0.0]
        env.check(not st["over"], "no further increment after the end of the step")
        if st["over"]: raise Stop()
        x0 = st["x0"]
        row = J(x0)[ndof]
        one = [i for i in range(n) if env.truth(row[i] == 1)]
        env.check(len(one) == 1 and all(env.truth(row[i] == 0) for i in range(n) if i != one[0]), "control row with a single one")
        idx = one[0]
        stp = -F(x0)[ndof]
        prev = st["att"][-1] if st["att"] else None
        last = st["hist"][-1] if st["hist"] else None
        a = Att()
        a.idx, a.stp, a.pre, a.prev = idx, stp, jpre and jfix is None and not st["att"], prev
        a.sgn = 1 if env.truth(stp > 0) else -1
        a.npre = prev.n if prev and prev.pre else 0
        a.fac = env.abs(stp) / dx0[idx]
        natt = len([t for t in st["att"] if not t.pre]) + 1
        if not prev: st["heads"].append(st["incs"] + 1)
        if "attempts" in want and not a.pre:
            env.check(natt <= attempts_bound, "%d attempts for one increment, at most %d are allowed" % (natt, attempts_bound))
            if natt > attempts_bound: raise Stop()
        if "limits" in want:
            if not (prev and prev.pre): env.eq([x[i] for i in range(n)], x0, "attempts start from the point accepted last")
            env.eq(env.abs(stp), (1.0 if not step else cur_fac(M, a, last)) * dx0[idx], "the control component moves by its step limit")
            env.eq([call["ftol"], call["xtol"]], [1e-8, 1e-8], "tolerances handed to the solver")
            if jfix is not None: env.check(idx == abs(jfix) - 1 and a.sgn == (1 if jfix > 0 else -1), "locked control component")
            elif last is None: env.check(idx == (abs(j0) - 1 if j0 else n - 1) and a.sgn == (1 if (j0 or 1) > 0 else -1), "initial control component")
            if prev and not prev.ok and not prev.pre: env.check(idx == prev.idx and a.sgn == prev.sgn, "control component %d is replaced after an attempt that did not converge" % (prev.idx + 1))
            if prev and prev.ok and jfix is None and not prev.pre:
                env.cover("switched")
                for i in range(n): env.le(prev.q[i], prev.q[idx], "the component with the largest relative increment takes over control")
                env.check(prev.D[idx] * a.sgn > 0, "sign of the new control component")
        if "fac" in want: controller(M, a, last)
        # the answer
        if k == 0 and first_ok is not None: okk = first_ok
        elif len(ok) == 1: okk = bool(ok[0])
        else: okk = env.flag("ok%d" % k)
        if nan and not okk and env.flag("nan%d" % k):
            env.cover("nan")
            new = [float("nan")] * n
        elif few and not okk:
            w = env.choice("how%d" % k, [0, 1] if few == 1 else [0, 1, 2, 3])
            new = [x0[i] + dx0[i] * (a.sgn if i == idx else 1) * 0.5 for i in range(n)]
            m = (idx + 1) % n
            if w == 0: new[idx] = x0[idx] + stp
            elif w == 1: new[m] = x0[m] - 2 * dx0[m]
            elif w == 2: new[m] = x0[m] + 2 * dx0[m]
            else: new[idx] = x0[idx] - 2 * dx0[idx] * a.sgn
        elif vals == "half":
            # converged: inside the limits or another component beyond them
            w = env.choice("which%d" % k, [0, 1])
            new = [x0[i] + dx0[i] * (a.sgn if i == idx else 1) * 0.5 for i in range(n)]
            new[idx] = x0[idx] + stp
            if w: new[(idx + 1) % n] = x0[(idx + 1) % n] - 2 * dx0[(idx + 1) % n]
        elif vals == "one":
            # converged: inside the limits or a single component, any one, beyond them
            w = env.choice("which%d" % k, list(range(n)) + [None])
            sg = env.choice("dir%d" % k, [1, -1])
            new = [x0[i] + dx0[i] * (1 if i % 2 else -1) * (0.5 - i / 64) for i in range(n)]
            new[idx] = x0[idx] + stp
            if w is not None and w != idx: new[w] = x0[w] + sg * env.real("d%d_%d" % (k, w), 1.5, 4) * dx0[w]
        else:
            new = []
            for i in range(n):
                if i == idx and contract: new.append(x0[i] + stp)
                elif vals == "zero": new.append(x0[i])
                else:
                    d = env.real("d%d_%d" % (k, i), -span, span)
                    if moves: env.assume(d != 0)
                    new.append(x0[i] + d)
        a.n = env.int("n%d_%d" % (k, call["nfev"]), 1, call["nfev"]) if its else 2
        if a.pre: a.n = 1
        a.nfev = call["nfev"]
        a.ok, a.x0, a.new = okk, x0, new
        isn = any(not env.is_sym(v) and v != v for v in new)
        a.D = [u - v for u, v in zip(new, x0)]
        a.q = None if isn else [env.abs(d) / (a.fac * w) for d, w in zip(a.D, dx0)]
        st["att"].append(a); st["hist"].append(a)
        comps = [abs(jfix) - 1] if jfix is not None else range(n)
        a.inside = okk and not isn and all(at_most(env, a.q[i], tol) for i in comps)
        a.z = natt - 1
        a.acc = False
        if okk and a.inside:
            env.cover("accepted-pre" if a.pre else "accepted")
            a.acc = True
            st["acc"].append((a, st["step"])); st["x0"] = new; st["att"] = []; st["incs"] += 1
            l = lim()
            if st["incs"] == n_incs(): st["over"] = True; env.cover("all-increments")
            if l and not at_most(env, env.abs(new[l[0] - 1]), l[1]): st["over"] = True; st["ends"].append("EXIT"); env.cover("limit")
        else: env.cover("outside" if okk else "failed")
        return new, okk, a.n, (0.0 if okk else 1.0), (0.0 if okk else 1.0)
    def leave(M):
        "the step has ended: was that right?"
        if not st["over"] and n_incs(): st["ends"].append("ERROR")
        if "exit" not in want or st["over"] or n_incs() == 0: return
        natt = len([t for t in st["att"] if not t.pre])
        env.check(natt > 0, "the step ends although no limit has been reached and no attempt of the next increment was made")
        if natt == 0: return
        env.cover("given-up")
        if st["att"][-1].ok: env.check(natt >= cycl, "a converged attempt outside the limits is recycled until the allowed number of recycles is used")
    # ---- step width
    def cur_fac(M, a, last): return a.fac
    def controller(M, a, last):
        f = a.fac
        env.le(minfac, f, "smallest step width factor")
        env.le(f, maxfac, "largest step width factor")
        if last is None: return env.eq(f, 1.0, "the first attempt uses the configured limits")
        g = last.fac
        if not step: return env.eq(f, 1.0, "without adaptive control the limits do not change")
        if not at_most(env, g, f):
            env.cover("reduced")
            env.check(not last.ok, "limits are reduced although the last attempt converged")
            want_f = g / red
            env.eq(f, want_f if at_most(env, minfac, want_f) else minfac, "reduction by the configured factor, not below the minimum")
            st["since"] = 0
        elif not at_most(env, f, g):
            env.cover("increased")
            env.check(last.ok, "limits are increased although the last attempt did not converge")
            env.check(last.z == 0, "limits are increased after a recycle")
            env.check(st["since_prev"] is None or st["since_prev"] > 3, "limits are increased although only %s increments have been accepted since the last reduction" % st["since_prev"])
            env.check(last.n < last.nfev, "limits are increased although all iterations were used")
            env.le(f, g * (1 + inc), "increase by at most the configured one")
            if jfix is None:
                for i in range(n): env.le(last.q[i], last.q[last.idx], "limits are increased although the control component changes")
    def wrap(k, F, J, x, M, call):
        r = script(k, F, J, x, M, call)
        a = st["hist"][-1]
        # accepted increments since the last reduction, seen before this attempt
        st["since_prev"] = st["since"]
        if a.acc and st["since"] is not None: st["since"] += 1
        return r
    def build(M):
        more = range((ndof + 2) // 3)
        define(M, [(1, (0.0, 0.0, 0.0))] + [(2 + k, (16.0, 8.0 * k, 0.0)) for k in more], [El(1 + k, (1, 2 + k), 1.0, 1, [1.0]) for k in more], [(1, (0, 0, 0))] + [(2 + k, tuple(1 if 3 * k + c < ndof else 0 for c in range(3))) for k in more], [(2, (1.0, 0.5, 0.0) * steps)])
        M.Settings.nsteps = steps
    kw = dict(xlimit=xlimit) if xlimit else {}
    st["since_prev"] = None
    M = drive(env, build, wrap, j_pre=jpre, j_fixed=jfix is not None, j0=jfix if jfix is not None else j0, du=du, dlpf=dlpf, dxtol=tol, incs=incs, cycl=cycl, stepcontrol=step,
              maxfac=maxfac, minfac=minfac, reduce=red, increase=inc, nfev=nfev, ftol=8, xtol=8, log=log, record="log" in want, decoy=decoy, **kw)
    leave(M)
    if "exit" in want: env.check(st["step"] == steps - 1, "all steps are run")
    R = M.Results.R
    acc = st["acc"]
    env.check(len(R) == len(acc) + 1, "%d increments returned, %d attempts were accepted" % (len(R) - 1, len(acc)))
    for i, (a, s) in enumerate(acc[:len(R) - 1]):
        r = R[i + 1]
        env.eq([r.U[1 + c // 3][c % 3] for c in range(ndof)], a.new[:-1], "displacements of increment %d" % (i + 1))
        env.eq(r.lpf, a.new[-1], "load factor of increment %d" % (i + 1))
        if "fac" in want: env.eq(r.dVmax, [a.fac * w for w in dx0], "recorded limits of increment %d keep their proportions" % (i + 1))
    if "exit" in want:
        for s in range(steps):
            ni = incs[s] if isinstance(incs, tuple) else incs
            env.check(len([1 for _, t in acc if t == s]) <= ni, "number of increments of step %d" % (s + 1))
    if "log" in want: told(env, M, env.world.stdout.text(), st, acc, steps, log, step)
    env.cover("end")
    env.observe("U", [r.U for r in R]); env.observe("lpf", [r.lpf for r in R])

def told(env, M, text, st, acc, steps, log, step):
    "what the output says about the run"
    ends = re.findall("ERROR|EXIT", text)
    env.check(ends == st["ends"], "messages about the end of steps: %s, expected %s" % (ends, st["ends"]))
    for e in ends: env.cover("says-" + e)
    if log == 0: return
    def lines(pat, what, want):
        got = [m for m in re.findall(pat, text, re.M)]
        env.check(len(got) == len(want), "%s: %d lines, expected %d" % (what, len(got), len(want)))
        return zip(got, want) if len(got) == len(want) else ()
    def single(pat, what, want):
        for g, w in lines(pat, what, want):
            v = printed(env, g)
            env.check(len(v) >= 1, "%s: %r" % (what, g))
            if v: shows(env, v[0], w, "%s: the value printed" % what)
    single(r"^## Step(.*)$", "begin of a step", list(range(1, steps + 1)))
    single(r"^End of Step(.*)$", "end of a step", list(range(1, steps + 1)))
    single(r"^### Increment(.*)$", "begin of an increment", st["heads"])
    single(r"final LPF:(.*)$", "final load factor of an increment", [a.new[-1] for a, _ in acc])
    if log < 2: return
    per = [[a for a, t in acc if t == s] for s in range(steps)]
    for g, (i, n, a) in lines(r"write result(.*)$", "results written", [(i + 1, len(p), a) for p in per for i, a in enumerate(p)]):
        v = printed(env, g)
        env.check(v[:2] == [i, n], "result %d of %d is written as %r" % (i, n, g))
        shows(env, v[2], a.new[-1], "load factor of the result written")
    att = [a for a in st["hist"] if not a.pre]
    for g, a in lines(r"^\|total\|.*\n(.*)$", "summary of an attempt", att):
        v = printed(env, g)
        env.check(len(v) >= 8, "summary of an attempt: %r" % g)
        if len(v) < 8 or a.q is None: continue
        if not step: shows(env, v[0], a.z + 1, "number of the attempt")      # (counts anew after a reduction)
        shows(env, v[1], a.n + a.npre, "number of iterations")
        shows(env, v[2], a.sgn * (a.idx + 1), "control component of an attempt")
        last = None
        for k in range(min(3, len(a.q))):
            c, x = v[4 + 2 * k:6 + 2 * k]
            i = [i for i in range(len(a.q)) if env.truth(env.abs(c - (i + 1)) < 0.5)]
            env.check(len(i) == 1, "component number %d of the summary" % (k + 1))
            if len(i) != 1: continue
            q = a.q[i[0]]
            env.check(last is None or last[0] != i[0], "component named twice")
            shows(env, x, q if env.truth(a.D[i[0]] > 0) else -q, "relative increment of component %d" % (i[0] + 1))
            if last: env.le(q, last[1], "components by falling relative increment")
            last = (i[0], q)
            if k == 0:
                for j in range(len(a.q)): env.le(a.q[j], q, "the first component is the one with the largest relative increment")
