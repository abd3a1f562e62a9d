"""Stand-ins for the outside world of the code under test."""
import functools, math, posixpath, types
import numpy as np
try:
    from . import core, arr
    from .core import Sym, raise_unsup
    SYM = True
except ImportError:
    SYM = False
    class Sym: pass
    def raise_unsup(m): raise NotImplementedError(m)

# ------------------------------------------------------------------ math
class _Math(types.ModuleType):
    def __init__(self): super().__init__("math")
    def __getattr__(self, n):
        r = getattr(math, n)
        if not callable(r): return r
        f = MATHF.get(n)
        def g(*a, **k):
            a = [arr._scal(x) if isinstance(x, arr.SArr) else x for x in a]
            if any(arr.is_sym(x) for x in a) or (n in ("fsum", "prod", "dist", "sumprod") and arr.has_sym([list(x) for x in a if hasattr(x, "__iter__")])) :
                if f is None: raise_unsup("math.%s on a symbolic value" % n)
                return f(*a, **k)
            return r(*a, **k)
        return g
def _fold(f, s):
    def g(it, start=None):
        r = s if start is None else start
        for x in it: r = f(r, x)
        return r
    return g
def _msqrt(x):
    r = core.s_sqrt(x)
    if not isinstance(r, Sym) and r != r: raise ValueError("math domain error")
    return r
MATHF = {}
if SYM:
    MATHF = {"sqrt": _msqrt, "fabs": core.s_abs, "floor": core.s_floor, "ceil": lambda a: -core.s_floor(-a), "trunc": core.s_trunc,
         "hypot": lambda *a: core.s_sqrt_sum(a), "isnan": lambda a: False, "isinf": lambda a: False, "isfinite": lambda a: True,
         "copysign": lambda a, b: abs(a) if b >= 0 else -abs(a), "pow": core.s_pow, "fsum": _fold(lambda a, b: a + b, 0.0), "prod": _fold(lambda a, b: a * b, 1),
         "isclose": lambda a, b, rel_tol=1e-9, abs_tol=0.0: abs(a - b) <= arr.e_max(rel_tol * arr.e_max(abs(a), abs(b)), abs_tol),
         "dist": lambda a, b: core.s_sqrt_sum([x - y for x, y in zip(a, b)])}

# ------------------------------------------------------------------ scipy
class Sparse:
    "dense stand-in for scipy sparse matrices"
    def __init__(self, a, shape=None, dtype=None, **k):
        if isinstance(a, Sparse): a = a.d
        if isinstance(a, tuple) and len(a) == 2 and isinstance(a[1], tuple):
            i, j = arr.cidx(arr.asarr(a[1][0])), arr.cidx(arr.asarr(a[1][1]))
            v = arr.asarr(a[0])
            if shape is None: shape = (int(max(i)) + 1, int(max(j)) + 1)
            d = arr.np_zeros(shape)
            for n in range(v.size): d[i[n], j[n]] = d[i[n], j[n]] + v[n]
            a = d
        elif isinstance(a, tuple): a = arr.np_zeros(a)
        self.d = arr.asarr(a)
        if self.d.ndim == 1: self.d = self.d.reshape(1, -1)
        self.shape = self.d.shape
        self.ndim = 2
    def toarray(self, *a, **k): return self.d.copy()
    todense = toarray
    @property
    def A(self): return self.d.copy()
    @property
    def T(self): return Sparse(self.d.T)
    def transpose(self): return self.T
    def tocsr(self, *a): return self
    tocsc = tocoo = tolil = copy = tocsr
    def dot(self, o): return arr.np_dot(self.d, o.d if isinstance(o, Sparse) else o)
    def __matmul__(self, o): return self.dot(o)
    def __mul__(self, o): return Sparse(self.d * o) if not isinstance(o, np.ndarray) else self.dot(o)
    __rmul__ = __mul__
    def __add__(self, o): return Sparse(self.d + (o.d if isinstance(o, Sparse) else o))
    def __sub__(self, o): return Sparse(self.d - (o.d if isinstance(o, Sparse) else o))
    def __neg__(self): return Sparse(-self.d)
    def __getitem__(self, i): return self.d[i]
    def __setitem__(self, i, v): self.d[i] = v
    def diagonal(self): return arr.np_diag(self.d)
def _dense(a): return a.d if isinstance(a, Sparse) else a
def make_scipy(log=None):
    sp = types.ModuleType("scipy"); sps = types.ModuleType("scipy.sparse"); spl = types.ModuleType("scipy.sparse.linalg"); la = types.ModuleType("scipy.linalg")
    for n in ("csr_matrix", "csc_matrix", "coo_matrix", "lil_matrix", "dok_matrix", "bsr_matrix", "csr_array", "csc_array", "coo_array", "lil_array"):
        setattr(sps, n, Sparse)
    sps.issparse = lambda a: isinstance(a, Sparse)
    sps.eye = lambda n, **k: Sparse(arr.np_eye(n))
    sps.diags = lambda *a, **k: raise_unsup("scipy.sparse.diags")
    def spsolve(A, b, *a, **k):
        b = _dense(b)
        b = arr.asarr(b)
        r = arr.solve_lin(_dense(A), b.reshape(-1) if b.ndim == 2 and b.shape[1] == 1 else b, singular="nan")
        if log is not None: log.append((arr.asarr(_dense(A)).copy(), b.copy(), r))
        return r
    spl.spsolve = spsolve
    class LU:
        def __init__(self, A, *a, **k): self.A = A
        def solve(self, b, *a): return arr.solve_lin(_dense(self.A), b, singular="raise")
    spl.splu = spl.spilu = LU
    spl.factorized = lambda A: LU(A).solve
    spl.norm = lambda A, *a: arr.la_norm(_dense(A), *a)
    la.solve = lambda A, b, **k: arr.solve_lin(A, b)
    la.norm = arr.la_norm; la.det = arr.la_det; la.inv = arr.la_inv
    la.lu_factor = lambda A, **k: LU(A)
    la.lu_solve = lambda lu, b, **k: lu.solve(b)
    sp.sparse, sps.linalg, sp.linalg = sps, spl, la
    return {"scipy": sp, "scipy.sparse": sps, "scipy.sparse.linalg": spl, "scipy.linalg": la}

# ------------------------------------------------------------------ file system
def kw(*names):
    "let the first parameters also be given under the names of the real function"
    def deco(f):
        @functools.wraps(f)
        def w(self, *a, **k):
            a = list(a)
            for n in names[len(a):]:
                if n not in k: break
                a.append(k.pop(n))
            return f(self, *a, **k)
        return w
    return deco

class VFS:
    """virtual file system; every mutation is recorded, nothing real is touched.
    Paths are normalised against the virtual working directory /cwd."""
    def __init__(self):
        self.files = {}            # path -> content object
        self.dirs = {"/", "/cwd"}
        self.ops = []              # (op, path)
        self.cwd = "/cwd"
    def ab(self, p):
        if hasattr(p, "__fspath__"): p = p.__fspath__()
        p = str.__str__(p)
        return posixpath.normpath(posixpath.join(self.cwd, p))
    @kw("s")
    def isdir(self, p): return self.ab(p) in self.dirs
    @kw("path")
    def isfile(self, p): return self.ab(p) in self.files
    @kw("path")
    def exists(self, p): return self.isdir(p) or self.isfile(p)
    @kw("path")
    def mkdir(self, p, mode=0o777, **k):
        q = self.ab(p)
        if q in self.dirs or q in self.files: raise FileExistsError(17, "File exists", p)
        if posixpath.dirname(q) not in self.dirs: raise FileNotFoundError(2, "No such file or directory", p)
        self.ops.append(("mkdir", q)); self.dirs.add(q)
    @kw("name")
    def makedirs(self, p, mode=0o777, exist_ok=False):
        q = self.ab(p)
        if q in self.dirs:
            if exist_ok: return
            raise FileExistsError(17, "File exists", p)
        par = posixpath.dirname(q)
        if par not in self.dirs: self.makedirs(par, exist_ok=True)
        self.mkdir(q)
    @kw("path")
    def rmtree(self, p, ignore_errors=False, onerror=None, **k):
        q = self.ab(p)
        if q not in self.dirs:
            if ignore_errors: return
            raise FileNotFoundError(2, "No such file or directory", p)
        self.ops.append(("rmtree", q))
        pre = q.rstrip("/") + "/"
        self.dirs = {d for d in self.dirs if d != q and not d.startswith(pre)}
        self.files = {f: c for f, c in self.files.items() if not f.startswith(pre)}
    @kw("path")
    def remove(self, p, **k):
        q = self.ab(p)
        if q not in self.files: raise FileNotFoundError(2, "No such file or directory", p)
        self.ops.append(("remove", q)); del self.files[q]
    @kw("path")
    def rmdir(self, p, **k):
        q = self.ab(p)
        if q not in self.dirs: raise FileNotFoundError(2, "No such file or directory", p)
        pre = q.rstrip("/") + "/"
        if any(x.startswith(pre) for x in list(self.files) + list(self.dirs)): raise OSError(39, "Directory not empty", p)
        self.ops.append(("rmdir", q)); self.dirs.discard(q)
    @kw("src", "dst")
    def rename(self, a, b, **k):
        a, b = self.ab(a), self.ab(b)
        self.ops.append(("rename", a)); self.ops.append(("rename", b))
        if a in self.files: self.files[b] = self.files.pop(a)
        elif a in self.dirs:
            self.dirs = {b + d[len(a):] if d == a or d.startswith(a + "/") else d for d in self.dirs}
            self.files = {(b + f[len(a):] if f.startswith(a + "/") else f): c for f, c in self.files.items()}
        else: raise FileNotFoundError(2, "No such file or directory", a)
    def write(self, p, content):
        q = self.ab(p)
        if posixpath.dirname(q) not in self.dirs: raise FileNotFoundError(2, "No such file or directory", p)
        self.ops.append(("write", q)); self.files[q] = content
    @kw("path")
    def listdir(self, p="."):
        q = self.ab(p)
        if q not in self.dirs: raise FileNotFoundError(2, "No such file or directory", p)
        pre = q.rstrip("/") + "/"
        out = sorted({x[len(pre):].split("/")[0] for x in list(self.files) + list(self.dirs) if x.startswith(pre) and x != q})[::-1]
        S = core.SStr if SYM else str
        return [S(x) for x in out]      # an order no caller may rely on
    @kw("path")
    def chdir(self, p):
        q = self.ab(p)
        if q not in self.dirs: raise FileNotFoundError(2, "No such file or directory", p)
        self.cwd = q
    @kw("pathname")
    def glob(self, pat, **k):
        import fnmatch
        d, b = posixpath.split(str(pat))
        if not self.isdir(d or "."): return []
        S = core.SStr if SYM else str
        return [S(posixpath.join(d, n)) for n in self.listdir(d or ".") if fnmatch.fnmatchcase(n, b)]
    @kw("file")
    def open(self, p, mode="r", *a, **k):
        return VFile(self, p, mode)

def names(x):
    "file names that may contain formatted symbolic numbers"
    if not SYM: return x
    if isinstance(x, str): return core.SStr(x)
    return tuple(names(y) for y in x) if isinstance(x, tuple) else x
def named(f):
    @functools.wraps(f)
    def g(*a, **k): return names(f(*a, **k))
    return g

class VFile:
    def __init__(self, fs, p, mode):
        self.fs, self.q, self.mode, self.closed, self.name = fs, fs.ab(p), mode, False, p
        if "r" in mode and "+" not in mode:
            if self.q not in fs.files: raise FileNotFoundError(2, "No such file or directory", p)
        elif "a" in mode: fs.write(p, fs.files.get(self.q, ""))
        else: fs.write(p, "")
    def write(self, s):
        if self.closed: raise ValueError("I/O operation on closed file.")
        self.fs.files[self.q] = self.fs.files.get(self.q, "") + s
        return len(s)
    def writelines(self, l):
        for s in l: self.write(s)
    def read(self, *a): return self.fs.files[self.q]
    def flush(self): pass
    def close(self): self.closed = True
    def fileno(self): raise OSError("no file descriptor")
    def isatty(self): return False
    def writable(self): return True
    def __enter__(self): return self
    def __exit__(self, *a): self.close()

class Guard(types.ModuleType):
    "module whose unlisted attributes are refused"
    def __init__(self, name, d):
        super().__init__(name); self.__dict__.update(d)
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        raise_unsup("%s.%s" % (self.__name__, n))

def make_os(fs):
    path = Guard("os.path", {n: named(getattr(posixpath, n)) if n != "sep" else "/" for n in ("join", "basename", "dirname", "split", "splitext", "normpath", "sep", "isabs", "commonpath", "commonprefix")})
    path.__dict__.update(isdir=fs.isdir, isfile=fs.isfile, exists=fs.exists, lexists=fs.exists, abspath=fs.ab, realpath=fs.ab, relpath=lambda path, start=None: posixpath.relpath(fs.ab(path), fs.ab(start) if start else fs.cwd),
                         islink=lambda p: False, expanduser=lambda p: p, getsize=lambda p: 0, getmtime=lambda p: 0.0)
    class DE:
        def __init__(self, d, n): self.name, self.path = names(n), names(posixpath.join(d, n))
        def is_file(self): return fs.isfile(self.path)
        def is_dir(self): return fs.isdir(self.path)
        def __fspath__(self): return self.path
    class SD(list):
        def __enter__(self): return self
        def __exit__(self, *a): pass
        def close(self): pass
    os_ = Guard("os", dict(path=path, mkdir=fs.mkdir, makedirs=fs.makedirs, remove=fs.remove, unlink=fs.remove, rmdir=fs.rmdir, rename=fs.rename, replace=fs.rename,
                           listdir=fs.listdir, getcwd=lambda: fs.cwd, chdir=fs.chdir, sep="/", linesep="\n", name="posix", environ={}, getpid=lambda: 4242,
                           scandir=lambda path=".": SD(DE(path, n) for n in fs.listdir(path)), fspath=lambda p: p.__fspath__() if hasattr(p, "__fspath__") else p, devnull="/dev/null", pathsep=":", curdir=".", extsep="."))
    def walk(top, topdown=True, **k):
        ns = fs.listdir(top)
        d = [n for n in ns if fs.isdir(posixpath.join(top, n))]
        f = [n for n in ns if n not in d]
        yield top, d, f
        for x in d: yield from walk(posixpath.join(top, x))
    os_.__dict__["walk"] = walk
    sh = Guard("shutil", dict(rmtree=fs.rmtree, move=fs.rename, copy=lambda a, b: fs.write(b, fs.files[fs.ab(a)]), copyfile=lambda a, b: fs.write(b, fs.files[fs.ab(a)])))
    class P:
        def __init__(self, *a): self.p = posixpath.join(*[x.p if isinstance(x, P) else x for x in a]) if a else "."
        def __truediv__(self, o): return P(self.p, o)
        def __rtruediv__(self, o): return P(o, self.p)
        def __fspath__(self): return names(self.p)
        def __str__(self): return names(self.p)
        def __repr__(self): return "Path(%r)" % self.p
        def __eq__(self, o): return isinstance(o, P) and self.p == o.p
        def __hash__(self): return hash(self.p)
        def __lt__(self, o): return (core.SStr(self.p) if SYM else self.p) < o.p
        @property
        def name(self): return names(posixpath.basename(self.p))
        @property
        def suffix(self): return names(posixpath.splitext(self.p)[1])
        @property
        def stem(self): return names(posixpath.splitext(self.name)[0])
        @property
        def parent(self): return P(posixpath.dirname(self.p) or ".")
        def is_dir(self): return fs.isdir(self.p)
        def is_file(self): return fs.isfile(self.p)
        def exists(self): return fs.exists(self.p)
        def mkdir(self, mode=0, parents=False, exist_ok=False):
            if parents: return fs.makedirs(self.p, exist_ok=exist_ok)
            if exist_ok and fs.isdir(self.p): return
            fs.mkdir(self.p)
        def iterdir(self): return iter([self / n for n in fs.listdir(self.p)])
        def glob(self, pat): return iter([P(x) for x in fs.glob(posixpath.join(self.p, pat))])
        def unlink(self, missing_ok=False):
            if missing_ok and not self.exists(): return
            fs.remove(self.p)
        def rmdir(self): fs.rmdir(self.p)
        def open(self, mode="r", *a, **k): return fs.open(self.p, mode)
        def resolve(self): return P(fs.ab(self.p))
        absolute = resolve
        def joinpath(self, *a): return P(self.p, *a)
        def as_posix(self): return self.p
    pl = Guard("pathlib", dict(Path=P, PurePath=P, PosixPath=P))
    gl = Guard("glob", dict(glob=fs.glob, iglob=lambda p, **k: iter(fs.glob(p))))
    im = Guard("imageio", {})
    def imread(uri, *a, **k):
        p = uri
        q = fs.ab(p)
        if q not in fs.files: raise FileNotFoundError(2, "No such file", p)
        return fs.files[q]
    def mimwrite(uri, ims, *a, **k): fs.write(uri, ("movie", list(ims), dict(k)))
    class Writer:
        def __init__(self, uri, *a, **k): self.p, self.i, self.k = uri, [], k
        def append_data(self, x, *a): self.i.append(x)
        def close(self): fs.write(self.p, ("movie", list(self.i), dict(self.k)))
        def __enter__(self): return self
        def __exit__(self, *a): self.close()
    im.__dict__.update(imread=imread, mimwrite=mimwrite, mimsave=mimwrite, get_writer=Writer, imwrite=lambda p, x, **k: fs.write(p, x))
    im.__dict__["v2"] = im
    im3 = Guard("imageio.v3", dict(imread=imread, imwrite=mimwrite))
    im.__dict__["v3"] = im3
    return {"os": os_, "os.path": path, "shutil": sh, "pathlib": pl, "glob": gl, "imageio": im, "imageio.v2": im, "imageio.v3": im3}

# ------------------------------------------------------------------ matplotlib (recording)
class Soft:
    "inert object: attributes are callables returning inert objects"
    def __init__(self, name="soft"): self.__dict__["_n"] = name
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        return Soft(self._n + "." + n)
    def __setattr__(self, n, v): self.__dict__[n] = v
    def __call__(self, *a, **k): return Soft(self._n + "()")
    def __iter__(self): raise_unsup("iteration over " + self._n)
    def __bool__(self): return True
    def __float__(self): raise_unsup("value of " + self._n)
    def __deepcopy__(self, m): return self
class Text(Soft):
    def __init__(self, t=""): self.__dict__["_n"] = "text"; self.__dict__["t"] = t
    def get_text(self): return self.t
    def set_text(self, t): self.__dict__["t"] = t
class Line(Soft):
    def __init__(self, xyz, fmt, kw):
        self.__dict__.update(_n="line", xyz=xyz, fmt=fmt, kw=kw)
    def get_xdata(self, orig=True): return self.xyz[0]
    def get_ydata(self, orig=True): return self.xyz[1]
    def get_data(self, orig=True): return self.xyz[0], self.xyz[1]
    def set_alpha(self, a): self.kw["alpha"] = a
    def set_color(self, a): self.kw["color"] = a
    def set_label(self, a): self.kw["label"] = a
    def set_data(self, x, y): self.xyz[0], self.xyz[1] = _l(x), _l(y)
    def set_xdata(self, x): self.xyz[0] = _l(x)
    def set_ydata(self, x): self.xyz[1] = _l(x)
def _l(x):
    return list(x) if hasattr(x, "__iter__") else [x]
class Axis(Soft):
    def __init__(self): self.__dict__.update(_n="axis", label=Text())
    def get_label(self): return self.label
    def get_label_text(self): return self.label.t
class Axes(Soft):
    def __init__(self, fig, p3=False):
        self.__dict__.update(_n="axes", figure=fig, p3=p3, lines=[], scat=[], arrows=[], arrows3=[], texts=[], xaxis=Axis(), yaxis=Axis(), zaxis=Axis(), title=Text(), lim={}, ticks={}, transAxes=Soft("transAxes"), patches=[])
    def get_figure(self): return self.figure
    def clear(self): self.__init__(self.figure, self.p3)
    cla = clear
    def plot(self, *a, **k):
        a = list(a); k = dict(k)
        n = 3 if self.p3 else 2
        out = []
        data = []
        for x in ("xs", "ys", "zs"):
            if x in k: data.append(k.pop(x))
        fmt = ""
        pos = [x for x in a if not isinstance(x, str)]
        f = [x for x in a if isinstance(x, str)]
        if len(f) > 1: raise_unsup("several formats in one plot call")
        pos += data
        if self.p3 and len(pos) == 2: pos.append([0] * len(_l(pos[0])))
        if not self.p3 and len(pos) == 1: pos = [range(len(_l(pos[0]))), pos[0]]
        if not self.p3 and len(pos) > 2:
            for q in range(0, len(pos), 2): out += self.plot(pos[q], pos[q + 1], *f, **k)
            return out
        xyz = [_l(x) for x in pos]
        if self.p3 and not hasattr(pos[2], "__iter__"): xyz[2] = [pos[2]] * len(xyz[0])
        if len({len(x) for x in xyz}) != 1: raise ValueError("x and y must have same first dimension")
        # several columns: one line per column
        if any(isinstance(v, np.ndarray) for v in xyz[0] + xyz[1]): 
            raise_unsup("2d data in plot")
        if self.p3:
            xyz = [[_f(v) for v in x] for x in xyz]
        else: xyz = [[v for v in x] for x in xyz]
        ln = Line(xyz, f[0] if f else "", k)
        self.lines.append(ln)
        return [ln]
    def plot3D(self, *a, **k): return self.plot(*a, **k)
    def scatter(self, x, y, zs=None, **k):
        zs = k.pop("zs", zs)
        pts = [_l(x), _l(y)]
        if self.p3: pts.append(_l(zs) if hasattr(zs, "__iter__") else [0 if zs is None else zs] * len(pts[0]))
        s = Soft("scatter"); s.__dict__.update(pts=pts, kw=k)
        self.scat.append(s); return s
    def arrow(self, x, y, dx, dy, **k):
        s = Soft("arrow"); s.__dict__.update(v=(x, y, dx, dy), kw=k)
        self.arrows.append(s); return s
    def annotate(self, *a, **k): raise_unsup("annotate")
    def quiver(self, *a, **k): raise_unsup("quiver")
    def add_artist(self, a):
        self._add(a); return a
    def add_patch(self, a): self._add(a); return a
    def add_line(self, a): self.lines.append(a); return a
    def _add(self, a):
        if hasattr(a, "_verts3d"):
            v = a.__dict__["_verts3d"] if "_verts3d" in a.__dict__ else None
            self.arrows3.append(a)
        else: self.patches.append(a)
    def _lim(self, w, a, k):
        if not a and not k: return self.lim.get(w, (-1.0, 1.0))
        lo = k.get({"x": "xmin", "y": "ymin", "z": "zmin"}[w], k.get("left", k.get("bottom")))
        hi = k.get({"x": "xmax", "y": "ymax", "z": "zmax"}[w], k.get("right", k.get("top")))
        if a: lo, hi = (a[0], a[1]) if len(a) == 2 else a[0]
        self.lim[w] = (lo, hi); return lo, hi
    def set_xlim(self, *a, **k): return self._lim("x", a or ((-1., 1.),), k)
    def set_ylim(self, *a, **k): return self._lim("y", a or ((-1., 1.),), k)
    def set_zlim(self, *a, **k): return self._lim("z", a or ((-1., 1.),), k)
    set_xlim3d, set_ylim3d, set_zlim3d = set_xlim, set_ylim, set_zlim
    def get_xlim(self): return self._lim("x", (), {})
    def get_ylim(self): return self._lim("y", (), {})
    def get_zlim(self): return self._lim("z", (), {})
    def set_xlabel(self, t, *a, **k): self.xaxis.label.set_text(t)
    def set_ylabel(self, t, *a, **k): self.yaxis.label.set_text(t)
    def set_zlabel(self, t, *a, **k): self.zaxis.label.set_text(t)
    def get_xlabel(self): return self.xaxis.label.t
    def get_ylabel(self): return self.yaxis.label.t
    def set_title(self, t, *a, **k): self.title.set_text(t)
    def get_title(self): return self.title.t
    def set(self, **k):
        for n, v in k.items(): getattr(self, "set_" + n)(v) if n not in ("xlim", "ylim", "zlim") else getattr(self, "set_" + n)(*v)
    def set_xticks(self, t, labels=None, **k):
        self.ticks["x"] = _l(t)
        if labels is not None: self.ticks["xl"] = _l(labels)
    def set_xticklabels(self, t, **k): self.ticks["xl"] = _l(t)
    def text(self, x, y, s, *a, **k): self.texts.append(s); return Text(s)
    def text2D(self, x, y, s, **k): self.texts.append(s); return Text(s)
    def plot_surface(self, *a, **k): return Soft("surface")
    def get_lines(self): return list(self.lines)
    def axis(self, *a, **k): return None
    def get_legend_handles_labels(self): return [], []
    def twinx(self): raise_unsup("twinx")
def _f(v):
    if isinstance(v, Sym): return v
    return float(v)
class Figure(Soft):
    def __init__(self, n): self.__dict__.update(_n="figure", number=n, axes=[])
    def add_subplot(self, *a, projection=None, **k):
        ax = Axes(self, projection == "3d"); self.axes.append(ax); self.__dict__["cur"] = ax; return ax
    def gca(self):
        if not self.axes: self.add_subplot(111)
        return self.__dict__.get("cur", self.axes[-1])
    def subplots(self, *a, **k): 
        if a or k.get("nrows", 1) != 1 or k.get("ncols", 1) != 1: raise_unsup("subplots grid")
        return self.add_subplot(111, projection=(k.get("subplot_kw") or {}).get("projection"))
    def get_axes(self): return list(self.axes)
    def sca(self, ax): self.__dict__["cur"] = ax
    def clear(self, *a, **k): self.__dict__.update(axes=[]); self.__dict__.pop("cur", None)
    clf = clear
    def colorbar(self, m, *a, **k): return Soft("colorbar")
class Color:
    "colour of a colour map at a normalised value"
    def __init__(self, cmap, v, n): self.cmap, self.v, self.n = cmap, v, n
    def __eq__(self, o): raise_unsup("colour comparison")
    __hash__ = None
    def __deepcopy__(self, m): return self
class CMap(Soft):
    def __init__(self, name, n): self.__dict__.update(_n="cmap", name=name, N=n)
    def __call__(self, v, *a, **k): return Color(self.name, v, self.N)
    def resampled(self, n): return CMap(self.name, n)
    def copy(self): return self
    def with_extremes(self, **k): return self
    def __copy__(self): return self
class Normalize(Soft):
    def __init__(self, vmin=None, vmax=None, clip=False): self.__dict__.update(_n="norm", vmin=vmin, vmax=vmax)
    def __call__(self, v, *a):
        if self.vmin == self.vmax: return 0.0
        return (v - self.vmin) / (self.vmax - self.vmin)
class ScalarMappable(Soft):
    def __init__(self, norm=None, cmap=None): self.__dict__.update(_n="sm", norm=norm, cmap=cmap)
    def to_rgba(self, v, *a, **k): return self.cmap(self.norm(v))
class FancyArrowPatch:
    def __init__(self, posA=None, posB=None, *a, **k): self.kw = k; self.axes = None
    def set_positions(self, *a): pass
    def __getattr__(self, n):
        if n.startswith("_"): raise AttributeError(n)
        return Soft("arrowpatch." + n)

def make_mpl(fs):
    st = types.SimpleNamespace(figs=[], cur=None, n=0)
    plt = types.ModuleType("matplotlib.pyplot")
    def figure(*a, **k):
        num = a[0] if a else k.get("num")
        if isinstance(num, Figure): st.cur = num; return num
        st.n += 1; f = Figure(st.n); st.figs.append(f); st.cur = f; return f
    def gcf():
        return st.cur if st.cur is not None else figure()
    def gca(**k): return gcf().gca()
    def subplots(*a, **k):
        f = figure(); return f, f.subplots(*a, **{n: v for n, v in k.items() if n in ("nrows", "ncols", "subplot_kw")})
    def close(f=None):
        if f == "all": st.figs.clear(); st.cur = None
        else:
            g = st.cur if f is None else f
            if g in st.figs: st.figs.remove(g)
            if st.cur is g: st.cur = st.figs[-1] if st.figs else None
    def savefig(p, *a, **k): fs.write(p, ("frame", snapshot(gcf())))
    def fsave(self, p, *a, **k): fs.write(p, ("frame", snapshot(self)))
    Figure.savefig = fsave
    def deleg(n, m=None):
        return lambda *a, **k: getattr(gca(), m or n)(*a, **k)
    plt.__dict__.update(figure=figure, gcf=gcf, gca=gca, subplots=subplots, close=close, savefig=savefig, show=lambda *a, **k: None,
        plot=deleg("plot"), scatter=deleg("scatter"), arrow=deleg("arrow"), xlabel=deleg("set_xlabel"), ylabel=deleg("set_ylabel"), title=deleg("set_title"),
        text=deleg("text"), legend=deleg("legend"), xlim=lambda *a, **k: gca()._lim("x", a, k), ylim=lambda *a, **k: gca()._lim("y", a, k),
        colorbar=lambda *a, **k: Soft("colorbar"), get_cmap=lambda name=None, lut=None: CMap(name, lut), axes=lambda *a, **k: gca(), sca=lambda ax: ax.figure.sca(ax),
        subplot=lambda *a, **k: gcf().add_subplot(*a, **k), clf=lambda: gcf().axes.clear(), cla=lambda: None, grid=lambda *a, **k: None, xticks=lambda *a, **k: None,
        yticks=lambda *a, **k: None, axis=lambda *a, **k: None, tight_layout=lambda *a, **k: None, ion=lambda: None, ioff=lambda: None, draw=lambda: None, pause=lambda t: None,
        rcParams={}, get_fignums=lambda: [f.number for f in st.figs], Figure=Figure, Axes=Axes, Normalize=Normalize)
    mpl = types.ModuleType("matplotlib")
    colors = Guard("matplotlib.colors", dict(Normalize=Normalize))
    class CM(dict):
        def __getitem__(self, n): return CMap(n, 256)
        def get_cmap(self, n): return CMap(n, 256)
    cmaps = CM()
    cm = Guard("matplotlib.cm", dict(ScalarMappable=ScalarMappable, get_cmap=plt.get_cmap))
    patches = Guard("matplotlib.patches", dict(FancyArrowPatch=FancyArrowPatch))
    plt.__dict__["colormaps"] = cmaps
    plt.__dict__["cm"] = cm
    mpl.__dict__.update(pyplot=plt, colors=colors, cm=cm, patches=patches, colormaps=cmaps, rcParams={}, use=lambda *a, **k: None)
    proj3d = Guard("mpl_toolkits.mplot3d.proj3d", dict(proj_transform=lambda *a: raise_unsup("rendering")))
    m3 = Guard("mpl_toolkits.mplot3d", dict(proj3d=proj3d, Axes3D=Axes))
    mt = Guard("mpl_toolkits", dict(mplot3d=m3))
    return {"matplotlib": mpl, "matplotlib.pyplot": plt, "matplotlib.colors": colors, "matplotlib.cm": cm, "matplotlib.patches": patches,
            "mpl_toolkits": mt, "mpl_toolkits.mplot3d": m3, "mpl_toolkits.mplot3d.proj3d": proj3d}

# ------------------------------------------------------------------ what was drawn
def snapshot(fig):
    return [drawn(ax) for ax in fig.axes]
def _tick(t):
    try: return float(t.replace("\u2212", "-"))
    except ValueError: return t
def _col(c):
    import matplotlib.colors as mc
    return next((n for n in ("k", "C0", "C1", "C2", "C7") if mc.to_rgba(n) == tuple(c)), tuple(c))
def drawn(ax):
    """normalised content of an axes: lines, points, arrows, texts"""
    d = dict(lines=[], points=[], arrows=[], title="", xlabel="", ylabel="", texts=[], p3=False, hidden=[], acol=[])
    if isinstance(ax, Axes):
        d["p3"] = ax.p3
        for l in ax.lines:
            e = dict(xyz=[list(v) for v in l.xyz], color=l.kw.get("color", l.kw.get("c")), lw=l.kw.get("linewidth", l.kw.get("lw")), label=l.kw.get("label"),
                     markers=l.fmt[-1:] in ("o",) or l.kw.get("marker") not in (None, "None", "", "."), noline=(l.fmt[-1:] == "o" and "-" not in l.fmt) or l.kw.get("linestyle", l.kw.get("ls")) in ("none", "None", "", " "))
            hid = l.kw.get("alpha") == 0
            (d["hidden"] if hid else d["lines"]).append(e)
        for s in ax.scat: d["points"].append([list(v) for v in s.pts])
        for a in ax.arrows: d["arrows"].append(list(a.v)); d["acol"].append(a.kw.get("color", a.kw.get("fc")))
        for a in ax.arrows3:
            v = a._verts3d
            d["arrows"].append([list(x) for x in v]); d["acol"].append(getattr(a, "kw", {}).get("color"))
        d["title"], d["xlabel"], d["ylabel"], d["texts"] = ax.title.t, ax.xaxis.label.t, ax.yaxis.label.t, list(ax.texts)
        d["ticks"] = dict(ax.ticks)
        d["lim"] = {k: list(v) for k, v in ax.lim.items()}
    else:
        import matplotlib.collections as mc, matplotlib.patches as mp
        d["p3"] = ax.name == "3d"
        for l in ax.lines:
            xyz = l.get_data_3d() if d["p3"] else l.get_data(orig=True)
            ls = l.get_linestyle()
            e = dict(xyz=[[float(x) for x in v] for v in xyz], color=l.get_color(), lw=l.get_linewidth(), label=l.get_label(),
                     markers=l.get_marker() not in (None, "None", "", "."), noline=ls in ("None", "", " "))
            (d["hidden"] if l.get_alpha() == 0 else d["lines"]).append(e)
        for c in ax.collections:
            if isinstance(c, mc.PathCollection):
                if d["p3"]: o = [list(map(float, v)) for v in c._offsets3d]
                else: o = [[float(x) for x in c.get_offsets()[:, i]] for i in range(2)]
                d["points"].append(o)
        for a in list(ax.patches) + list(ax.artists):
            if hasattr(a, "_verts3d"): 
                v = [[float(x) for x in q] for q in a._verts3d]
                d["arrows"].append(v); d["acol"].append(_col(a.get_edgecolor()))
            elif isinstance(a, mp.FancyArrow): d["arrows"].append([float(a._x), float(a._y), float(a._dx), float(a._dy)]); d["acol"].append(_col(a.get_edgecolor()))
        d["ticks"] = dict(x=[float(t) for t in ax.get_xticks()], xl=[_tick(t.get_text()) for t in ax.get_xticklabels()])
        d["lim"] = {k: [float(v) for v in getattr(ax, "get_%slim" % k)()] for k in ("xyz" if d["p3"] else "xy")}
        d["title"], d["xlabel"], d["ylabel"], d["texts"] = ax.get_title(), ax.get_xlabel(), ax.get_ylabel(), [t.get_text() for t in ax.texts]
    return d
