"""C20: movies."""
from .plots import *

BASE = {"/cwd/notes.txt": "keep", "/cwd/figures2/a.png": "keep", "/cwd/png/fig_00000001.png": "keep", "/data/figures/png/b.png": "keep", "/cwd/sub/figures/png/c.png": "keep"}

def prepare(env, old):
    fs = env.world.fs
    for p, c in BASE.items():
        d = p.rpartition("/")[0]
        fs.makedirs(d, exist_ok=True)
        fs.write(p, c)
    if old:
        for d in ("/cwd/figures", "/cwd/figures/png", "/cwd/figures/gif"): fs.makedirs(d, exist_ok=True)
        for f in old: fs.write("/cwd/figures/" + f, ("frame", []) if f.endswith(".png") else ("movie", [], {}))
    del fs.ops[:]
    return fs

def finish(env, fs):
    "-> frames of the movie"
    for op, p in fs.ops:
        env.check(p == "/cwd/figures" or p.startswith("/cwd/figures/"), "only the output folder is touched: %s %s" % (op, p))
    for p, c in BASE.items(): env.check(fs.files.get(p) == c, "file %s is left alone" % p)
    mv = [(p, c) for p, c in fs.files.items() if isinstance(c, tuple) and c and c[0] == "movie"]
    env.check(len(mv) == 1, "one movie is written: %s" % [p for p, c in mv])
    if len(mv) != 1: raise Stop()
    env.check(mv[0][0].startswith("/cwd/figures/") and mv[0][0].endswith(".gif"), "the movie lies in the output folder")
    fr = mv[0][1][1]
    env.check(all(isinstance(f, tuple) and f[0] == "frame" for f in fr), "the movie consists of drawn frames")
    return [f[1] for f in fr]

def movie(env, old=(), chosen=(None,), view="xz", fs_=0.5, contour=None, again=True, **kw):
    S = Shown(env, **kw)
    M = S.M
    nr = len(M.Results.R)
    fs = prepare(env, old)
    for n, incs in enumerate(chosen):
        if n: del fs.ops[:]
        a = dict(view=view, contour=contour, force_scale=fs_)
        if incs is not None: a["incs"] = incs
        M.plot_movie(**a)
        want = sorted(incs) if incs is not None and incs != "all" else list(range(1, nr))
        fr = finish(env, fs)
        env.check(len(fr) == len(want), "%d frames, expected %d" % (len(fr), len(want)))
        for k, f in zip(want, fr):
            env.check(len(f) >= 1, "a frame shows a plot")
            if f: compare(env, f[0], picture(env, S, k, view, fs_, contour), view, "frame of increment %d" % k)
    env.cover("movie")

class Many(list):
    "a great many results: the displacement tells the increment"
    def __init__(self, n, make): self.n, self.make = n, make
    def __len__(self): return self.n
    def __getitem__(self, i): return self.make(i)

def default_long(env, n):
    "no choice made: all of a long run"
    S = Shown(env, n=2, free=(1,), steps=1, incs=1, forces=lambda s, i: (1.0, 0.0, 0.0), lab=(1, 2))
    M = S.M
    import copy
    R1 = M.Results.R[1]
    off = env.real("off", 0, 0.125)
    def make(i):
        r = copy.copy(R1)
        r.U = env.arr([[0.0, 0.0, 0.0], [i * 0.25 + off, 0.0, 0.0]])
        r.lpf = 1.0
        return r
    M.Results.R = [make(i) for i in range(n)]
    fs = prepare(env, ())
    M.plot_movie()
    fr = finish(env, fs)
    env.check(len(fr) == n - 1, "one frame per increment: %d of %d" % (len(fr), n - 1))
    if len(fr) != n - 1: raise Stop()
    for i, f in enumerate(fr):
        pts = [p for q in f[0]["points"] for p in zip(*q)] + [p for l in f[0]["lines"] if l["noline"] for p in zip(*l["xyz"])]
        env.eq(pts[-1][0], 2.0 + i * 0.25 + 0.25 + off, "frame %d shows increment %d" % (i, i + 1))
    env.cover("all")

def long(env, k=2, hi=99999, old=(), asc=False, apart=None, alike=False):
    S = Shown(env, n=2, free=(1,), steps=1, incs=1, forces=lambda s, i: (1.0, 0.0, 0.0), lab=(1, 2))
    M = S.M
    import copy
    R0, R1 = M.Results.R[0], M.Results.R[1]
    def make(i):
        r = copy.copy(R1)
        r.U = env.arr([[0.0, 0.0, 0.0], [0.25 if alike else i * 0.25, 0.0, 0.0]])
        r.lpf = 1.0
        return r
    incs = [env.int("i%d" % j, 1, hi) for j in range(k)]
    for a in range(k):
        for b in range(a): env.assume(incs[b] < incs[a] if asc else incs[a] != incs[b])
    if apart:
        for a, (l, h) in zip(incs, apart): env.assume(env.and_(a >= l, a <= h))
    M.Results.R = Many(hi + 1, make)
    fs = prepare(env, old)
    M.plot_movie(incs=incs)
    fr = finish(env, fs)
    env.check(len(fr) == k, "one frame per chosen increment: %d of %d" % (len(fr), k))
    if len(fr) != k: raise Stop()
    rank = [sum(1 for b in incs if b is not a and env.truth(b < a)) for a in incs]
    for a, r in zip(incs, rank):
        pts = [p for q in fr[r][0]["points"] for p in zip(*q)] + [p for l in fr[r][0]["lines"] if l["noline"] for p in zip(*l["xyz"])]
        x = pts[-1][0]
        env.eq(x, 2.0 + (0.25 if alike else a * 0.25), "frame number %d shows the increment in that place of the order" % r)
    env.cover("ordered")

OLD = ("png/fig_00000001.png", "png/fig_00000077.png", "png/zzz.png", "png/fig_001.png", "gif/movie.gif")
SCENARIOS = [
    Scn("default", movie, n=2, free=(1,), steps=2, incs=2, chosen=(None, "all"), forces=lambda s, i: (1.0, 0.0, -0.5), covers=("movie",), bounds="2 nodes with arbitrary labels, 2 steps of 2 increments, arbitrary displacements and load factors, no earlier movie"),
    Scn("stale", movie, n=3, free=(1,), steps=1, incs=3, lab=(5, 2, 8), old=OLD, chosen=([3, 1], None, [2]), view="xy", forces=lambda s, i: (1.0, 0.0, -0.5), covers=("movie",), bounds="earlier movie and other files in the folder, movies of some and of all increments one after the other"),
    Scn("contour", movie, n=2, free=(1,), steps=1, incs=2, lab=(5, 2), view="3d", contour="force", fs_=1.5, forces=lambda s, i: (1.0, 0.0, -0.5), covers=("movie",), bounds="3d view, contour, undeformed state included", chosen=([0, 2], [1, 0, 2])),
    Scn("all-of-many", default_long, n=602, covers=("all",), path_limit=300, bounds="all increments of a run of 601, arbitrary shift of the displacements"),
    Scn("all-of-very-many", default_long, n=1102, covers=("all",), path_limit=600, tier="thorough", bounds="all increments of a run of 1101, arbitrary shift of the displacements"),
    Scn("two-of-many", long, k=2, covers=("ordered",), bounds="any two different increments 1..99999 in any order"),
    Scn("two-of-many-stale", long, k=2, old=OLD, covers=("ordered",), bounds="the same with an earlier movie in the folder"),
    Scn("alike", long, k=3, alike=True, hi=999, covers=("ordered",), bounds="any three different increments 1..999 that look alike"),
    Scn("three-of-many", long, k=3, covers=("ordered",), bounds="any three different increments 1..99999 in any order"),
    Scn("four-of-many", long, k=4, covers=("ordered",), bounds="any four different increments 1..99999", tier="thorough"),
    Scn("two-of-very-many", long, k=2, hi=99999999, covers=("ordered",), bounds="any two different increments below 10^8", tier="thorough"),
]
