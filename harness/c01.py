"""C01: closed form of the element response, through Model.run's residual function."""
from .common import *

def element(env, mtype, dims=3, decoy=False):
    la, lb = labels(env, 2, -BIG, BIG)
    XA, XE, UA, UE = vec(env, "XA"), vec(env, "XE"), vec(env, "UA"), vec(env, "UE")
    A = env.real("A", pos=True)
    E = env.real("E", pos=True)
    lpf = env.real("lpf")
    positive_lengths(env, XA, XE, UA, UE)
    mprop = [E] if mtype == 1 else [E, env.real("K", lo=0), env.real("Sy", pos=True)]
    conn = env.choice("conn", [0, 1])
    order = env.choice("order", [0, 1])
    nd = [(la, tuple(XA)), (lb, tuple(XE))]
    first_a = env.truth(la < lb)
    def build(M):
        define(M, nd if order == 0 else nd[::-1], [El(env.int("el", -BIG, BIG), (la, lb) if conn == 0 else (lb, la), A, mtype, mprop)], [], [(lb, (1, 2, 3))])
    def fn(F, J, x, M):
        xs = (UA + UE if first_a else UE + UA) + [lpf]
        F(xs)
        a = M.Analysis
        law = (lambda e: E * e) if mtype == 1 else (lambda e: isotropic(env, E, mprop[1], mprop[2], 0)(e)[0])
        lam, s, N, f = force_of(env, XA, XE, UA, UE, law, A)
        env.eq(a.stretch, [[lam]], "stretch")
        env.eq(a.element_stress, [[s]], "stress")
        env.eq(a.element_force, [[N]], "normal force")
        ra, re = [-c for c in f], f
        env.eq(a.r, [ra, re] if first_a else [re, ra], "internal forces")
        env.observe("r", a.r)
    probe(env, build, fn, decoy=decoy)

SCENARIOS = [
    Scn("elastic", element, bounds="one element, all 12 coordinates/displacements, E, A > 0 real; labels 1..10^6; both end node and definition orders", mtype=1),
    Scn("plastic-virgin", element, bounds="as elastic; E, Sy > 0, K >= 0, virgin history", mtype=2),
    Scn("after-another-model", element, bounds="another model with the same labels, other coordinates and parameters has been run before", mtype=1, decoy=True),
    Scn("after-another-model-plastic", element, bounds="the same with an elastic-plastic element", mtype=2, decoy=True),
]
