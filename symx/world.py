"""What both modes share: fake sys/print/open, loading of the code under test."""
import builtins, sys, time, types
from . import stubs
from .loader import Loader, STDLIB, SRC

class Stop(Exception):
    "raised by a harness to end a scenario early (not an error)"

class Sink:
    "text stream; records what is written when asked to"
    def __init__(self, name, record=False):
        self.name, self.record, self.buf, self.n, self.closed = name, record, [], 0, False
    def write(self, s):
        self.n += 1
        if self.record: self.buf.append(s)
        return len(s)
    def writelines(self, l):
        for x in l: self.write(x)
    def flush(self): pass
    def isatty(self): return False
    def text(self): return "".join(self.buf)
    def fileno(self): raise OSError("no file descriptor")
    def __repr__(self): return "<%s>" % self.name

class FakeSys(types.ModuleType):
    def __init__(self, out):
        super().__init__("sys")
        self.__dict__.update(stdout=out, stderr=Sink("stderr"), __stdout__=out, argv=["prog"])
    def __getattr__(self, n):
        if n in ("exit", "float_info", "maxsize", "version_info", "version", "platform", "byteorder", "getrecursionlimit", "exc_info", "implementation"):
            return getattr(sys, n)
        raise AttributeError("fake sys has no %r" % n)

class World:
    """environment of one execution of the code under test"""
    def __init__(self, fakes, extra=None, strict=True, allowed=(), record=False):
        self.fs = stubs.VFS()
        self.stdout = Sink("stdout", record)
        self.sys = FakeSys(self.stdout)
        self.procs = []
        t = [1000.0]
        def clock():
            t[0] += 0.125
            return t[0]
        tm = types.ModuleType("time")
        tm.__dict__.update(time=clock, perf_counter=clock, process_time=clock, monotonic=clock, sleep=lambda s: None,
                           strftime=lambda f, *a: "2023-01-01", localtime=time.localtime, gmtime=time.gmtime, ctime=lambda *a: "now")
        sub = types.ModuleType("subprocess")
        def run(*a, **k): self.procs.append(a)
        sub.__dict__.update(run=run, call=run, check_call=run, Popen=run, check_output=run)
        fk = {"sys": self.sys, "time": tm, "subprocess": sub}
        fk.update(stubs.make_os(self.fs))
        fk.update(fakes(self.fs))
        def p(*a, sep=" ", end="\n", file=None, flush=False):
            f = self.sys.stdout if file is None else file
            if isinstance(f, Sink) and not f.record:
                f.n += 1
                return
            if f is None: return
            f.write((" " if sep is None else sep).join(str(x) for x in a) + ("\n" if end is None else end))
        ex = {"print": p, "open": self.fs.open, "input": lambda *a: ""}
        ex.update(extra or {})
        self.loader = Loader(fk, ex, strict=strict, allowed=allowed)
    def load(self, hooks=None):
        self.loader.hooks = dict(hooks or {})
        return self.loader.load("trusspy")
    def mod(self, name): return self.loader.load(name)
