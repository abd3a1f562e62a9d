"""Loads trusspy from the current source tree of /repo into a private set of
modules whose imports and builtins are chosen by the caller."""
import builtins, importlib, os, sys, types

SRC = os.environ.get("TRUSSPY_SRC", "/repo/src")
_code = {}

def _find(name):
    p = os.path.join(SRC, *name.split("."))
    if os.path.isdir(p):
        return os.path.join(p, "__init__.py"), True
    return p + ".py", False

class Loader:
    def __init__(self, fakes, extra_builtins=None, strict=True, allowed=()):
        self.fakes, self.mods, self.strict, self.allowed = fakes, {}, strict, set(allowed)
        self.hooks = {}
        b = dict(builtins.__dict__)
        b.update(extra_builtins or {})
        b["__import__"] = self._import
        self.b = b
    def load(self, name):
        m = self.mods.get(name)
        if m is not None: return m
        if "." in name: self.load(name.rpartition(".")[0])
        path, pkg = _find(name)
        if not os.path.exists(path): raise ModuleNotFoundError("No module named %r" % name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else name.rpartition(".")[0]
        if pkg: m.__path__ = [os.path.dirname(path)]
        m.__dict__["__builtins__"] = self.b
        self.mods[name] = m
        st = os.stat(path)
        key = (path, st.st_mtime_ns, st.st_size)
        c = _code.get(key)
        if c is None:
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                with open(path, encoding="utf-8") as fh: c = compile(fh.read(), path, "exec")
            _code[key] = c
        try:
            exec(c, m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        h = self.hooks.get(name)
        if h: h(m)
        if "." in name:
            par, _, leaf = name.rpartition(".")
            setattr(self.mods[par], leaf, m)
        return m
    def _get(self, name):
        "module object for an absolute name"
        if name == "trusspy" or name.startswith("trusspy."): return self.load(name)
        if name in self.fakes:
            f = self.fakes[name]
            return f() if isinstance(f, types.FunctionType) else f
        top = name.partition(".")[0]
        if top in self.fakes and self.strict:
            m = self._get(top)
            for part in name.split(".")[1:]: m = getattr(m, part)
            return m
        if self.strict and top not in self.allowed:
            from .core import raise_unsup
            raise_unsup("import of %s by the code under test" % name)
        return importlib.import_module(name)
    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get("__package__") or ""
            parts = pkg.split(".")
            base = ".".join(parts[:len(parts) - level + 1])
            name = base + ("." + name if name else "")
        m = self._get(name)
        if fromlist:
            for f in fromlist:
                if f != "*" and not hasattr(m, f) and name.startswith("trusspy"):
                    try: self.load(name + "." + f)
                    except ModuleNotFoundError: pass
            return m
        if "." in name:
            top = name.partition(".")[0]
            return self._get(top)
        return m
STDLIB = {"__future__", "abc", "argparse", "bisect", "collections", "contextlib", "copy", "dataclasses", "datetime", "decimal", "enum", "errno",
          "functools", "heapq", "inspect", "io", "itertools", "json", "keyword", "logging", "numbers", "operator", "re", "string", "textwrap",
          "traceback", "types", "typing", "warnings", "weakref", "statistics", "fractions", "unittest", "platform", "gc", "struct"}
