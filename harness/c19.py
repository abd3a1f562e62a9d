"""C19: model plots."""
import re
from .plots import *

def named(env, d, k, msg):
    "the title tells the increment"
    t = str(d["title"])
    if k: env.check(str(k) in re.findall(r"\d+", t), "%s: increment %d is not named in the title %r" % (msg, k, t))
    else: env.check("undeformed" in t.lower() or "0" in re.findall(r"\d+", t), "%s: title %r of the undeformed state" % (msg, t))

def window(env, d, view, sc, msg):
    "visible range as given"
    if not isinstance(sc, (list, tuple)): w = [(sc, -sc)] * (3 if view == "3d" else 2)
    elif len(sc) == 2: w = [tuple(sc)] * 2
    else: w = [tuple(sc[i:i + 2]) for i in range(0, len(sc), 2)]
    for k, v in zip("xyz", w): env.eq(d["lim"].get(k, [0.0, 0.0]), v, "%s: visible range of the %s axis" % (msg, k))

def plot(env, views=("xz",), at=(-1,), contours=(None,), scales=(1.0,), lims=None, nincs=1, windows=(None,), **kw):
    S = Shown(env, incs=nincs, **kw)
    M = S.M
    nr = len(M.Results.R)
    for k in range(nr): env.eq(M.Results.R[k].U, [S.U[k][i] for i in S.asc], "recorded displacements")
    for view in views:
        for inc in at:
            for contour in contours:
                for fs, sc in [(fs, sc) for fs in scales for sc in windows]:
                    if isinstance(sc, (list, tuple)) and len(sc) == 6 and view != "3d": continue
                    if isinstance(sc, (list, tuple)) and len(sc) < 6 and view == "3d": continue
                    k = inc if inc >= 0 else nr + inc
                    a = dict(view=view, inc=inc, force_scale=fs, contour=contour)
                    lim = None
                    if sc is not None: a["lim_scale"] = sc
                    if lims: a["cbar_limits"] = lim = lims
                    fig, ax = M.plot_model(**a)
                    what = "plot of increment %d, view %s" % (inc, view)
                    d = drawn(ax)
                    compare(env, d, picture(env, S, k, view, fs, contour, lim), view, what)
                    named(env, d, k, what)
                    if sc is not None: window(env, d, view, sc, what)
                    closeall(env)
    env.cover("drawn")

def one(s, i): return (1.0 + i, -2.0 - s, 0.5 * (i + 1))
def few(s, i): return (1.0 + s, 0.0, -0.5) if i == 1 else (0.0, 2.0 * s, 0.0)

SCENARIOS = [
    Scn("positions", plot, views=("xz", "xy", "yz", "3d"), at=(-1, 0, 1), n=2, free=(1,), steps=1, coords="sym", forces=few, covers=("drawn",), bounds="2 nodes anywhere in space with arbitrary labels, all views, undeformed and deformed"),
    Scn("labels", plot, views=("xz", "3d"), at=(-1, 1, 2, -2, -3), n=3, free=(0, 1), steps=2, forces=few, conns=[(1, 0), (1, 2), (2, 0)], covers=("drawn",), bounds="3 nodes with arbitrary labels, 3 bars, 2 steps, increments counted from either end"),
    Scn("loads", plot, views=("xz", "3d"), at=(1, 0), n=2, free=(1,), steps=1, lab=(3, 8), scales=(0.5,), covers=("drawn",), bounds="2 nodes, arbitrary load components, zero or not"),
    Scn("kept-loads", plot, views=("xy", "xz"), at=(1, 2, 3), n=2, free=(1,), nincs=(1, 2), steps=2, lab=(8, 3), forces="one", scales=(2.0,), covers=("drawn",), bounds="2 steps of 1 and 2 increments, arbitrary load factors, arbitrary loads at one node in both steps"),
    Scn("contours", plot, views=("xz", "3d"), at=(1, 0, 2), contours=("stretch", "force", "stress"), n=3, free=(1,), steps=1, nincs=2, lab=(4, 2, 9), forces=few, covers=("drawn",), bounds="2 bars, all contour quantities with automatic limits"),
    Scn("stretch-arbitrary", plot, views=("yz",), at=(1,), contours=("stretch",), n=3, free=(1,), steps=1, nincs=1, lab=(4, 2, 9), forces=few, arbitrary=True, covers=("drawn",), bounds="results with arbitrary displacements, stretches, forces and stresses"),
    Scn("force-arbitrary", plot, views=("yz",), at=(1,), contours=("force",), n=3, free=(1,), steps=1, nincs=1, lab=(4, 2, 9), forces=few, arbitrary=True, covers=("drawn",), bounds="results with arbitrary displacements, stretches, forces and stresses"),
    Scn("stress-arbitrary", plot, views=("yz",), at=(1,), contours=("stress",), n=3, free=(1,), steps=1, nincs=1, lab=(4, 2, 9), forces=few, arbitrary=True, covers=("drawn",), bounds="results with arbitrary displacements, stretches, forces and stresses"),
    Scn("contour-limits", plot, views=("xy",), at=(2, -2), contours=("stretch", "force", "stress", ("stress", (-1.0, 2.5)), ("force", (0.25, 0.75)), ("stretch", (0.5, 1.25))), lims=(-0.5, 1.5), n=3, free=(1,), steps=1, nincs=2, lab=(4, 2, 9), forces=few, covers=("drawn",), bounds="given contour limits"),
    Scn("limits-arbitrary", plot, views=("xy",), at=(1, -1), contours=("force", ("stress", (-1.0, 2.5)), ("force", (-2.0, 0.75)), ("stretch", (0.5, 1.25))), lims=(-0.5, 1.5), n=3, free=(1,), steps=1, nincs=2, lab=(4, 2, 9), forces=few, arbitrary=True, covers=("drawn",), bounds="given contour limits; arbitrary displacements, stretches, forces and stresses of 2 results"),
    Scn("window", plot, views=("xz", "xy", "yz", "3d"), at=(1, 0), contours=(None, "force"), windows=(None, -12.0, (-4.0, 16.0), [-4.0, 16.0, -8.0, 8.5], (-8.0, 9.0, -4.0, 16.0, -2.0, 12.0)), n=3, free=(1,), steps=1, lab=(4, 2, 9), forces=few, covers=("drawn",), bounds="visible range by default, by a negative scale, by 2, 4 or 6 given limits, all views"),
    Scn("many-nodes", plot, views=("xz", "3d"), at=(-1, 0, 1), contours=(None, ("stress", (-1.0, 2.5))), n=7, free=(3,), steps=1, lab=(60, 100, 9, 10, -4, 7, 11), forces=lambda s, i: (1.0 + i, 0.0, -0.5 * i), conns=[(0, 1), (2, 1), (3, 2), (3, 4), (5, 4), (6, 5), (0, 6), (2, 6), (1, 5), (4, 0), (3, 6)], covers=("drawn",), bounds="7 nodes and 11 bars, labels of different numbers of digits and signs"),
    Scn("twelve-increments", plot, views=("xy",), at=(-1, 10, 12, 2), contours=(None, "force"), n=2, free=(1,), nincs=12, steps=1, lab=(8, 3), forces=few, covers=("drawn",), bounds="12 increments"),
    Scn("after-another-model", plot, views=("xz", "3d"), at=(1, 0), n=3, free=(0, 1), steps=2, forces=few, conns=[(1, 0), (1, 2), (2, 0)], decoy=True, covers=("drawn",), bounds="after a run of another model with the same labels; 3 nodes with arbitrary labels, 2 steps"),
    Scn("loads-labels", plot, views=("xz", "xy", "yz", "3d"), at=(0, 1, 2, 3), n=3, free=(1, 2), steps=3, forces=few, scales=(1.0, 0.25), covers=("drawn",), bounds="3 steps, 3 nodes with arbitrary labels", tier="thorough", path_limit=600),
]
