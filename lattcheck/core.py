"""Shared pieces of the checks: findings, entries, coverage counters."""
from .loader import AnalysisError, ClassInfo, FunctionInfo
from .scenario import (
    LAT_STAGES, STAGES, World, is_mutator, public_functions, public_methods,
)
from .values import EMPTY, NC, V, State


class Finding:
    """One violation, identified by rule and construct (never by line number)."""

    def __init__(self, rule, construct, where, text, chain=""):
        self.rule = rule
        self.construct = construct
        self.where = where
        self.text = text
        self.chain = chain

    @property
    def key(self):
        return f"{self.rule}|{self.construct}"

    def as_dict(self):
        return dict(rule=self.rule, construct=self.construct, where=self.where, text=self.text, chain=self.chain)


class Result:
    def __init__(self):
        self.findings = {}
        self.cov = {}
        self.samples = []

    def add(self, *a, **k):
        f = Finding(*a, **k)
        self.findings.setdefault(f.key, f)

    def count(self, name, n=1):
        self.cov[name] = self.cov.get(name, 0) + n

    def absorb(self, world):
        self.count("abstract_calls", world.I.call_sites)
        self.count("statements_interpreted", world.I.stmts)
        self.cov.setdefault("_functions", set()).update(world.I.functions_seen)
        self.cov.setdefault("_limits", set()).update(world.I.limits_hit)


_SHARED = {}


def _worker(i):
    fn, p, args = _SHARED["job"]
    R = Result()
    try:
        extra = fn(p, R, *args[i])
    except AnalysisError as x:
        return None, None, None, str(x)
    return R.cov, list(R.findings.values()), extra, None


def parallel(p, fn, args):
    """Runs fn(p, R, *a) for each a in forked processes; results are merged in order."""
    import multiprocessing
    import os
    _SHARED["job"] = (fn, p, args)
    n = min(len(args), os.cpu_count() or 1)
    if n <= 1:
        parts = [_worker(i) for i in range(len(args))]
    else:
        with multiprocessing.get_context("fork").Pool(n) as pool:
            parts = pool.map(_worker, range(len(args)), chunksize=1)
    R = Result()
    extras = []
    for cov, fs, extra, err in parts:
        if err:
            raise AnalysisError(err)
        for k, v in cov.items():
            if isinstance(v, set):
                R.cov.setdefault(k, set()).update(v)
            else:
                R.count(k, v)
        for f in fs:
            R.findings.setdefault(f.key, f)
        extras.append(extra)
    return R, extras


class Entry:
    def __init__(self, w, cls, fi, stage):
        self.w = w
        self.cls = cls
        self.fi = fi
        self.stage = stage
        self.name = f"{cls.name}.{fi.name}" if cls is not None else fi.qualname.replace("lattpy.", "")
        self.recv = None

    def prepare(self, choose=None, skip_optional=False):
        w, fi, cls = self.w, self.fi, self.cls
        if cls is None:
            self.recv, st = None, State()
            self.selfv = None
        elif fi.kind == "classmethod":
            self.recv, st = None, State()
            self.selfv = V(fn=(("class", cls),))
        elif fi.kind == "staticmethod":
            self.recv, st = None, State()
            self.selfv = None
        elif fi.name == "__init__":
            self.recv, st = None, State()
            self.selfv = None
        else:
            self.recv, st = w.receiver(cls.name, self.stage)
            self.selfv = self.recv
        if fi.kind == "property":
            self.args, self.kw = [], {}
        else:
            self.args, self.kw = w.arguments(st, fi, cls, choose, skip_optional)
        self.st = st
        return self

    def run(self):
        w = self.w
        self.pre = self.st.copy()
        if self.fi.name == "__init__":
            self.out = w.new(self.cls, self.args, self.kw, self.st)
            self.recv = self.out.value
        else:
            self.out = w.call(self.fi, self.args, self.kw, self.st, selfv=self.selfv)
        return self.out

    def argvals(self):
        for i, a in enumerate(self.args):
            yield f"*args[{i}]", a
        yield from self.kw.items()


RECEIVERS = ["LatticeBasis", "LatticeStructure", "Lattice", "LatticeData", "DataMap", "Shape", "Circle", "Donut", "ConvexHull", "WignerSeitzCell", "KDTree", "DispersionPath", "Atom"]
CTORS = ["LatticeBasis", "LatticeStructure", "Lattice", "Shape", "Circle", "Donut", "ConvexHull", "DataMap", "DispersionPath", "Atom", "KDTree", "WignerSeitzCell"]


def entries(w, which="all", receivers=None, functions=True, ctors=True, stages=None):
    """Public entry points of the package, discovered from its classes and modules.

    Methods inherited unchanged are analysed on every class that offers them."""
    p = w.p
    for cname in receivers or RECEIVERS:
        cls = p.cls(cname)
        sts = (stages or LAT_STAGES)[cname]
        for nm, fi in public_methods(cls):
            m = is_mutator(fi, cls)
            if fi.kind == "classmethod" or fi.kind == "staticmethod":
                if which in ("all", "query"):
                    yield Entry(w, cls, fi, "new")
                continue
            if which == "query" and m or which == "mutator" and not m:
                continue
            for s in sts:
                yield Entry(w, cls, fi, s)
    if ctors and which in ("all", "ctor"):
        for cname in CTORS:
            cls = p.cls(cname)
            init = cls.lookup("__init__")
            if isinstance(init, FunctionInfo):
                yield Entry(w, cls, init, "new")
    if functions and which in ("all", "query"):
        for fi in public_functions(p):
            yield Entry(w, None, fi, "new")


def variants(e):
    """Further calls of an entry point: keyword arguments of constructors, another lattice in another state."""
    from .scenario import ctor_kw
    a = e.fi.node.args
    kw = ctor_kw(e.fi, e.cls)
    if kw:
        yield kw
    if "latt" in {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}:
        yield {"latt": ("latt", "periodic")}


def stable_path(path):
    """Access path with concrete indices abstracted."""
    import re
    return re.sub(r"\[\d+\]", "[*]", path)
