"""Most-general client: seeds for the public entry points and receiver life cycles.

Receivers are never described by hand: a lattice "in state built" is whatever the
abstract execution of the public constructor and of the public configuration calls
produces for symbolic arguments.
"""
import ast
import itertools

from .interp import Frame, Interp
from .loader import AnalysisError, ClassInfo, FunctionInfo, ModuleInfo
from .values import EMPTY, NC, V, Obj, State, const, join, scalar, unknown

# ------------------------------------------------------------------ argument seeds
# arr(axes, degree): array-like of numbers owned by the caller.  Axis labels: W = world
# components, L = lattice-vector components, LI = lattice index (nvec, alpha), other
# strings = row tokens.  The degree is the power of the length unit.


def arr(*ax, deg=None, dt=None, ints=False, role=None):
    return ("arr", ax, deg, dt, ints, role)


def num(ty="float", deg=None, role=None):
    return ("num", ty, deg, role)


def C(x):
    return ("const", x)


ANY = ("any",)
NONE = ("const", None)
BOOL = ("bool",)
INT = num("int", 0)
STR = ("str",)

POS = arr("W", deg=1)
NVEC = arr("L", deg=0, ints=True)
SHAPE = ("alt", (arr("W", deg=1), ("inst", "Circle"), ("inst", "Donut"), ("inst", "ConvexHull"), ("inst", "Shape")))
ATOM = ("alt", (NONE, STR, ("inst", "Atom")))
ATOMREF = ("alt", (INT, STR, ("inst", "Atom")))
SITE = num("int", 0, role="site")

BYNAME = {
    "a": num("float", 1), "a1": num("float", 1), "a2": num("float", 1), "az": num("float", 0),
    "alpha": num("int", 0), "x0": num("float", 0),
    "atom": ATOM, "atom1": ATOM, "atom2": ATOM, "neighbors": num("int", 0),
    "primitive": BOOL, "pos": POS, "check": BOOL, "min_neighbors": INT, "num_jobs": num("int", 0, role="jobs"),
    "callback": ("callable", "mask"), "dtype": ("dtype",), "shape": SHAPE, "s": SHAPE,
    "periodic": ("alt", (C(True), INT, arr(("P",), deg=0, ints=True))),
    "points": arr(("N",), "W", deg=1), "positions": arr(("N",), "W", deg=1),
    "nvec": NVEC, "r": POS, "world_coords": arr(("N",), "W", deg=1), "basis_coords": arr(("N",), "L", deg=0),
    "vecs": arr("L", "W", deg=-1), "tol": num("float", "poly"), "atol": num("float", "poly"), "eps": num("float", "poly"),
    "distidx": INT, "site": SITE, "idx": SITE, "idx0": SITE, "idx1": SITE, "unique": BOOL,
    "k": arr("W", deg=-1), "ind": arr("LI", deg=0, ints=True), "indices": arr(("N",), "LI", deg=0, ints=True),
    "latt": ("latt", "built"), "ax": num("int", 0, role="axis"), "axis": ("alt", (NONE, C(True), INT, arr(("P",), deg=0, ints=True))),
    "axes": ("alt", (INT, arr(("P",), deg=0, ints=True))),
    "side": num("int", 0), "sort_ax": INT, "sort_reverse": BOOL, "size": num("float", 1), "num": INT,
    "fractions": arr("W", deg=0), "vectors": arr("L", "W", deg=1), "basis": arr("L", "W", deg=1),
    "limits": arr("L", 2, deg=0, ints=True), "r1": arr("W", deg=1), "r2": arr("W", deg=1),
    "decimals": num("int", 0), "include_zero": BOOL, "include_origin": BOOL, "compact": BOOL,
    "theta": num("float", 0), "thetax": num("float", 0), "thetay": num("float", 0), "thetaz": num("float", 0), "degree": BOOL,
    "array": arr(("N",), ("S",)), "arrays": ("list", arr(("N",), "W", deg=1)), "items": ("list", ANY),
    "d": ("todict",), "file": STR, "other": ANY, "key": STR, "name": STR, "color": STR,
    "oversample": C(0.0), "comparison": ("default",),
    "mins": ("list", num("float", 1)), "maxs": ("list", num("float", 1)), "invert": BOOL, "offset": num("float", 1),
    "sites": arr(("R",), deg=0, ints=True, role="sites"), "boxsize": NONE,
    "point": arr("W", deg=-1), "names": ("list", STR), "labels": ("list", STR), "n_sect": INT,
    "steps": num("float", 1), "nums": INT, "endpoint": BOOL,
    "relative": BOOL, "analyze": BOOL, "num_distances": INT, "include_zero": BOOL, "return_pos": BOOL, "atleast2d": BOOL,
    "radius": num("float", 1), "lw": num("float", 0),
}

# documented keyword arguments of the constructors (and of the prefabricated lattices, which pass them on)
CTOR_KW = {
    "atoms": ("keyed", ("tuple", num("float", 1)), ("alt", (STR, ("inst", "Atom")))),
    "cons": ("alt", (INT, ("keyed", ("tuple", (STR, STR)), INT))),
    "shape": SHAPE,
    "periodic": ("alt", (C(True), INT, arr(("P",), deg=0, ints=True))),
}


def ctor_kw(fi, cls):
    """The documented keyword arguments a constructor takes through **kwargs."""
    if cls is None or fi.node.args.kwarg is None or fi.name != "__init__" and fi.kind != "classmethod":
        return {}
    names = {"LatticeStructure": ("atoms", "cons"), "Lattice": ("atoms", "cons", "shape", "periodic")}.get(cls.name, ())
    return {k: CTOR_KW[k] for k in names}


BYFUNC = {
    ("LatticeBasis.__init__", "basis"): ("alt", (arr("L", "W", deg=1), ("inst", "LatticeBasis"))),
    ("LatticeStructure.__init__", "basis"): ("alt", (arr("L", "W", deg=1), ("inst", "LatticeBasis"))),
    ("Lattice.__init__", "basis"): ("alt", (arr("L", "W", deg=1), ("inst", "LatticeBasis"))),
    ("LatticeBasis.oblique", "alpha"): num("float", 0),
    ("LatticeBasis.hypercubic", "dim"): ("dim",),
    ("LatticeBasis.itranslate", "x"): POS,
    ("LatticeBasis.get_cell_superindex", "index"): arr("L", deg=0, ints=True),
    ("LatticeBasis.get_cell_superindex", "shape"): arr("L", deg=0, ints=True),
    ("LatticeBasis.get_cell_index", "super_index"): arr(("N",), deg=0, ints=True),
    ("LatticeBasis.get_cell_index", "shape"): arr("L", deg=0, ints=True),
    ("LatticeStructure.add_connection", "atom1"): ATOMREF,
    ("LatticeStructure.add_connection", "atom2"): ATOMREF,
    ("LatticeStructure.get_alpha", "atom"): ATOMREF,
    ("LatticeStructure.get_atom", "atom"): ATOMREF,
    ("Lattice.kdtree", "positions"): ("alt", (NONE, arr(("N",), "W", deg=1))),
    ("Lattice.periodic_translation_vectors", "axes"): ("alt", (INT, arr(("P",), deg=0, ints=True))),
    ("LatticeData.neighbor_mask", "periodic"): BOOL, ("LatticeData.get_neighbors", "periodic"): BOOL,
    ("LatticeData.set", "neighbors"): arr(("N",), ("S",), deg=0, ints=True),
    ("LatticeData.set", "distances"): arr(("N",), ("S",), deg=1),
    ("LatticeData.add_neighbors", "neighbors"): INT,
    ("LatticeData.add_neighbors", "distances"): num("float", 1),
    ("LatticeData.find_outer_sites", "offset"): num("float", 1),
    ("LatticeData.sort", "indices"): arr(("N",), deg=0, ints=True),
    ("LatticeData.set_periodic", "indices"): ("pdict", arr(("P",), deg=0, ints=True)),
    ("LatticeData.set_periodic", "distances"): ("pdict", arr(("P",), deg=1)),
    ("LatticeData.set_periodic", "nvecs"): ("pdict", arr(("P",), "L", deg=0, ints=True)),
    ("LatticeData.set_periodic", "axes"): ("pdict", arr(("P",), "?", deg=0, ints=True)),
    ("LatticeData.append", "*"): ("data",),
    ("DataMap.__init__", "alphas"): arr(("N",), deg=0, ints=True),
    ("DataMap.__init__", "pairs"): arr(("Q",), 2, deg=0, ints=True),
    ("DataMap.__init__", "distindices"): arr(("Q",), deg=0, ints=True),
    ("DataMap.onsite", "alpha"): INT,
    ("DataMap.build_csr", "data"): arr(("Q",)),
    ("DataMap.build_bsr", "data"): arr(("Q",), "?", "?"),
    ("DataMap.build_csr", "shape"): ANY,
    ("DataMap.build_bsr", "shape"): ANY,
    ("DataMap.zeros", "norb"): INT,
    ("Shape.__init__", "shape"): arr("W", deg=1),
    ("Shape.__init__", "basis"): arr("L", "W", deg=1),
    ("AbstractShape.__init__", "dim"): ("dim",),
    ("Donut.__init__", "radius_outer"): num("float", 1),
    ("Donut.__init__", "radius_inner"): num("float", 1),
    ("DispersionPath.__init__", "dim"): ("dim",),
    ("DispersionPath.add_points", "points"): ("list", arr("W", deg=-1)),
    ("DispersionPath.x", "a"): num("float", 1),
    ("KDTree.__init__", "k"): INT, ("KDTree.__init__", "max_dist"): num("float", 1), ("KDTree.__init__", "p"): INT,
    ("KDTree.query", "x"): arr(("N",), "W", deg=1),
    ("KDTree.query_ball_point", "x"): arr(("N",), "W", deg=1),
    ("KDTree.query_ball_point", "r"): num("float", 1), ("KDTree.query_ball_tree", "r"): num("float", 1), ("KDTree.query_pairs", "r"): num("float", 1),
    ("KDTree.query_ball_tree", "other"): ("inst", "KDTree"),
    ("VoronoiTree.query", "x"): arr(("N",), "W", deg=1), ("VoronoiTree.query", "k"): INT,
    ("WignerSeitzCell.arange", "offset"): num("float", 0), ("WignerSeitzCell.linspace", "offset"): num("float", 0),
    ("WignerSeitzCell.meshgrid", "offset"): num("float", 0),
    ("WignerSeitzCell.meshgrid", "steps"): num("float", 1),
    ("compute_vectors", "b"): num("float", 1), ("compute_vectors", "c"): num("float", 1),
    ("compute_vectors", "alpha"): num("float", 0), ("compute_vectors", "beta"): num("float", 0), ("compute_vectors", "gamma"): num("float", 0),
    ("min_dtype", "a"): arr(("N",)), ("create_lookup_table", "array"): arr(("N",), ("S",)),
    ("vrange", "start"): arr("W"), ("vrange", "*"): arr("W"),
    ("rotate2d", "a"): arr("W"), ("rotate3d", "a"): arr("W"),
    ("frmt_num", "num"): num("float"), ("frmt_bytes", "num"): num("float"), ("frmt_time", "seconds"): num("float"),
    ("Atom.get", "default"): ("list", ANY),
    ("Atom.__init__", "color"): STR, ("Atom.__setitem__", "value"): ANY, ("Atom.__setattr__", "value"): ANY,
    ("LatticeStructure.fourier_weights", "k"): arr("W", deg=-1),
    ("LatticeStructure.estimate_index", "pos"): POS,
}

# plotting canvases are external objects whose mutation is the purpose of the call
CANVAS = {"ax", "axs", "renderer"}

MUTATORS = {
    "LatticeStructure": {"add_atom", "add_connection", "add_connections", "analyze"},
    "Lattice": {"build", "set_periodic", "append", "extend", "repeat"},
    "LatticeData": {"reset", "set", "remove", "set_periodic", "sort", "remove_periodic", "sort_neighbors", "add_neighbors", "append"},
    "DispersionPath": {"add", "add_points", "cycle", "gamma", "x", "m", "r", "build"},
    "Atom": {"__setitem__", "__delitem__", "__setattr__", "update", "pop", "clear", "setdefault", "popitem"},
}
PUBLIC_DUNDER = {
    "__eq__", "__hash__", "__repr__", "__str__", "__len__", "__iter__", "__getitem__", "__setitem__", "__delitem__", "__bool__", "__copy__",
}


def is_mutator(fi, cls=None):
    for c in (cls.mro() if cls is not None else [fi.cls] if fi.cls else []):
        if fi.name in MUTATORS.get(c.name, ()):
            return True
    return False


class N:
    lineno = 0
    col_offset = 0


class Node:
    def __init__(self, n):
        self.lineno = 0
        self.col_offset = n


class Outcome:
    """Result of one abstract call."""

    def __init__(self, value, st, raises, events):
        self.value = value  # None: no normal exit
        self.st = st
        self.raises = raises
        self.events = events

    @property
    def ok(self):
        return self.value is not None


class World:
    def __init__(self, program, dim=2):
        self.p = program
        self.dim = dim
        self.I = Interp(program, dim)
        m = ModuleInfo("<client>", "<client>", ast.parse("def client(): pass"))
        fi = FunctionInfo(m.tree.body[0], m)
        m.names["client"] = ("func", fi)
        self.client = fi
        self.I.frames.append(Frame(fi))
        self.I.stack.append((fi, N))
        self.I.raise_sinks.append([])
        self.count = itertools.count(1)
        self._recv = {}
        self.tag = ""
        self.weights = None  # behaviour of arguments under translations
        self.exact = False  # concrete alternatives only (no joined argument seeds)

    @staticmethod
    def option(fi, choose, name):
        """Whether a boolean option is switched on under a choice of arguments."""
        c = choose.get(name, "omit")
        if c != "omit":
            return c == ("const", True)
        a = fi.node.args
        pos = a.posonlyargs + a.args
        for x, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
            if x.arg == name:
                return isinstance(d, ast.Constant) and d.value is True
        return False

    def couple(self, fi, choose):
        """Units of shapes and positions under the primitive / basis options."""
        c = dict(choose)
        prim = self.option(fi, c, "primitive")
        names = {x.arg for x in fi.node.args.args}
        if "shape" in names and "basis" in names and isinstance(c.get("basis"), tuple):
            # a box in units of a basis
            c["shape"] = arr("L", deg=0)
            if c.get("pos", "omit") != "omit" or fi.name == "__init__" and "pos" not in c:
                c["pos"] = arr("L", deg=0)
        sh = "shape" if "shape" in names else "s" if "s" in names else None
        if prim and sh:
            s = c.get(sh)
            if s is None or s[0] == "arr":
                box = fi.name not in ("build_indices", "build_translation_vectors")
                c[sh] = arr("L" if box else "W", deg=0)
                if box and c.get("pos", "omit") != "omit":
                    c["pos"] = arr("L", deg=0)
            elif s == ("inst", "Shape"):
                c[sh] = ("inst", "Shape+basis")
        elif prim and fi.name == "add_atom":
            c["pos"] = arr("L", deg=0)
        return c

    # -- low-level -----------------------------------------------------------
    def node(self):
        return Node(next(self.count))

    def run(self, fn, st):
        I = self.I
        I.raise_sinks.append([])
        e0 = len(I.events)
        try:
            v = fn(st)
        finally:
            sink = I.raise_sinks.pop()
        return Outcome(v, st, sink, I.events[e0:])

    def call(self, fi, args=(), kw=None, st=None, selfv=None, star=None):
        return self.run(lambda s: self.I.call_function(fi, list(args), dict(kw or {}), s, self.node(), selfv=selfv, star=star), st)

    def new(self, cls, args=(), kw=None, st=None):
        return self.run(lambda s: self.I.instantiate(cls, list(args), dict(kw or {}), s, self.node()), st)

    def method(self, recv, name, args=(), kw=None, st=None):
        fi = None
        for m in recv.mem:
            o = st.heap[m]
            if isinstance(o.cls, ClassInfo):
                fi = o.cls.lookup(name)
        if not isinstance(fi, FunctionInfo):
            raise AnalysisError(f"public method {name} not found on {[st.heap[m].cls for m in recv.mem]}")
        return self.call(fi, args, kw, st, selfv=recv)

    # -- argument construction -------------------------------------------------
    def make(self, st, spec, name):
        I = self.I
        kind = spec[0]
        label = f"{self.tag}{name}"
        deps = frozenset([f"P:{label}"])
        if kind == "const":
            return const(spec[1], deps)
        if kind == "default":
            return None
        if kind == "alt":
            v = None
            for i, s in enumerate(spec[1]):
                x = self.make(st, s, f"{name}")
                v = x if v is None else join(v, x)
            return v
        if kind == "bool":
            return scalar("bool", deps, vn=("p", label))
        if kind == "str":
            return scalar("str", deps, vn=("p", label))
        if kind == "dim":
            return const(self.dim, deps) if self.dim else scalar("int", deps, deg=0)
        if kind == "num":
            f = {"vn": ("p", label), "rnd": "raw"}
            if spec[2] is not None:
                f["deg"] = spec[2]
            if spec[1] == "int":
                f["rnd"] = "poly"
            if spec[3]:
                f["role"] = spec[3]
            if self.weights:
                f["tw"] = self.weights.get(name.split(".")[-1])
            return scalar(spec[1], deps, **{k: x for k, x in f.items() if x is not None})
        if kind == "arr":
            _, ax, deg, dt, ints, role = spec
            oid = I.sym(st, "buf", label, maybe_list=True)
            f = {"vn": ("p", label), "ax": tuple(("param", label, a) if isinstance(a, tuple) else a for a in ax)}
            if deg is not None:
                f["deg"] = deg
            f["rnd"] = "poly" if ints else "raw"
            if ints:
                f["dt"] = "int64"
            if dt:
                f["dt"] = dt
            if role:
                f["role"] = role
            w = self.weights.get([x for x in name.split(".") if x != "item"][-1]) if self.weights else None
            if self.weights and w is None and ints:
                w = "poly"
            if w is not None:
                f["tw"] = w
            return V(mem=frozenset([oid]), deps=deps, f=f)
        if kind == "any":
            oid = I.sym(st, "buf", label, maybe_list=True)
            return V(frozenset(["any"]), mem=frozenset([oid]), deps=deps)
        if kind in ("list", "pdict"):
            oid = I.sym(st, "list" if kind == "list" else "dict", label)
            e = self.make(st, spec[1], name + ".item")
            o = st.heap[oid].clone()
            o.elem = e
            o.key = scalar("int", deps)
            o.open = True
            st.heap[oid] = o
            return V(mem=frozenset([oid]), deps=deps)
        if kind == "keyed":
            oid = I.sym(st, "dict", label)
            o = st.heap[oid].clone()
            o.key = self.make(st, spec[1], name + ".key")
            o.elem = self.make(st, spec[2], name + ".item")
            o.open = True
            st.heap[oid] = o
            return V(mem=frozenset([oid]), deps=deps)
        if kind == "tuple":
            es = tuple(self.make(st, x, f"{name}.{i}") for i, x in enumerate(spec[1] if isinstance(spec[1], tuple) and spec[1] and isinstance(spec[1][0], tuple) else [spec[1]] * max(1, self.dim or 2)))
            return V(frozenset(["tuple"]), elts=tuple(x.dep(deps) for x in es), deps=deps)
        if kind == "callable":
            return V(fn=(("ext", "client.callback"),), deps=deps)
        if kind == "dtype":
            return V(frozenset(["any"]), deps=deps, f={"dtv": "user"})
        if kind == "inst":
            return self.instance(st, spec[1], name)
        if kind == "latt":
            return self.foreign_lattice(st, name, spec[1])
        if kind == "data":
            v = self.foreign_lattice(st, name, "built")
            m = next(iter(v.mem))
            return st.heap[m].fields.get("data", unknown())
        if kind == "todict":
            return self.foreign_dict(st, name)
        raise AssertionError(spec)

    def instance(self, st, clsname, name):
        cls = self.p.cls(clsname.split("+")[0])
        tag, self.tag = self.tag, f"{self.tag}{name}.{clsname}."
        ev = len(self.I.events)
        rp = dict(self.I.reports)
        ls, self.I.listeners = self.I.listeners, []
        try:
            init = cls.lookup("__init__")
            if clsname == "Atom":
                args, kw = [], {"name": scalar("str", frozenset([f"P:{name}"]))}
            elif clsname == "KDTree":
                args, kw = [self.make(st, BYNAME["points"], "points")], {}
            elif clsname == "LatticeBasis":
                args, kw = [self.make(st, arr("L", "W", deg=1), "basis")], {}
            elif clsname == "Shape" and self.exact:
                args, kw = self.arguments(st, init, choose=self.couple(init, {"basis": "omit"}))
            elif clsname == "Shape+basis":
                args, kw = self.arguments(st, init, choose=self.couple(init, {"basis": arr("L", "W", deg=1)}))
            else:
                args, kw = self.arguments(st, init, skip_optional=(clsname != "Shape"))
            oid_before = set(st.heap)
            v = self.I.instantiate(cls, args, kw, st, self.node())
            if v is None:
                raise AnalysisError(f"constructor of {clsname} has no normal exit")
            for m in v.mem:
                o = st.heap[m].clone()
                o.origin = f"{tag}{name}"
                st.heap[m] = o
        finally:
            self.tag = tag
            self.I.listeners = ls
            del self.I.events[ev:]
            self.I.reports.clear()
            self.I.reports.update(rp)
        self.deep_label(v, st, f"P:{tag}{name}")
        return v.dep(frozenset([f"P:{tag}{name}"]))

    def deep_label(self, v, st, label):
        """Marks everything held by an argument object as coming from that argument."""
        if not self.I.fulldeps:
            return
        d = frozenset([label])
        for oid in self.I.reach(v, st):
            o = st.heap[oid].clone()
            o.fields = {k: x.dep(d) for k, x in o.fields.items()}
            if o.elts is not None:
                o.elts = tuple(x.dep(d) for x in o.elts)
            o.elem = o.elem.dep(d) if o.elem is not None else None
            if o.kind == "buf":
                o.std = o.std | d
            st.heap[oid] = o

    def foreign_lattice(self, st, name, stage):
        v, s = self._lattice(stage, st, f"{self.tag}{name}.")
        st.become(s)
        self.deep_label(v, st, f"P:{self.tag}{name}")
        return v.dep(frozenset([f"P:{self.tag}{name}"]))

    def foreign_dict(self, st, name):
        v, s = self._lattice("analyzed", st, f"{self.tag}{name}.")
        ls, self.I.listeners = self.I.listeners, []
        ev = len(self.I.events)
        try:
            out = self.method(v, "todict", st=s)
        finally:
            self.I.listeners = ls
            del self.I.events[ev:]
        st.become(out.st)
        return (out.value or unknown()).dep(frozenset([f"P:{self.tag}{name}"]))

    def _lattice(self, stage, st, tag):
        ls, self.I.listeners = self.I.listeners, []
        ev = len(self.I.events)
        rp = dict(self.I.reports)
        t0, self.tag = self.tag, tag
        try:
            cls = self.p.cls("Lattice")
            steps = STAGES[stage]
            v, s = self._construct(cls, st)
            for name, kw in steps:
                s = self._step(v, name, kw, s)
        finally:
            self.tag = t0
            self.I.listeners = ls
            del self.I.events[ev:]
            self.I.reports.clear()
            self.I.reports.update(rp)
        return v, s

    def _construct(self, cls, st):
        if cls.name in ("LatticeBasis", "LatticeStructure", "Lattice"):
            args = [self.make(st, arr("L", "W", deg=1), "basis")]
            out = self.new(cls, args, {}, st)
        else:
            raise AssertionError
        if not out.ok:
            raise AnalysisError(f"constructor of {cls.name} has no normal exit")
        return out.value, out.st

    def _step(self, v, name, kw, st):
        args = {k: self.make(st, s, f"{name}.{k}") for k, s in kw.items()}
        out = self.method(v, name, (), args, st)
        if not out.ok:
            raise AnalysisError(f"{name} has no normal exit in the life cycle of the client")
        return out.st

    def receiver(self, clsname, stage="new", tag="self."):
        """(value, state) of a receiver at a life-cycle stage (memoised; state copied)."""
        key = (clsname, stage, tag)
        if key not in self._recv:
            st = State()
            ls, self.I.listeners = self.I.listeners, []
            t0, self.tag = self.tag, tag
            try:
                if clsname in ("LatticeBasis", "LatticeStructure", "Lattice"):
                    cls = self.p.cls(clsname)
                    v, s = self._construct(cls, st)
                    for name, kw in STAGES[stage]:
                        s = self._step(v, name, kw, s)
                elif clsname == "LatticeData":
                    lv, s = self.receiver("Lattice", stage)
                    s = s.copy()
                    m = next(iter(lv.mem))
                    v = s.heap[m].fields.get("data")
                    if v is None:
                        raise AnalysisError("Lattice.data not initialised by the constructor")
                elif clsname == "DataMap":
                    lv, s = self.receiver("Lattice", "built")
                    s = s.copy()
                    out = self.method(lv, "dmap", (), {}, s)
                    v, s = out.value, out.st
                elif clsname in ("WignerSeitzCell",):
                    lv, s = self.receiver("LatticeBasis", "new")
                    s = s.copy()
                    out = self.method(lv, "wigner_seitz_cell", (), {}, s)
                    v, s = out.value, out.st
                elif clsname == "DispersionPath":
                    v = self.instance(st, clsname, "path")
                    s = st
                    if stage != "new":
                        for _ in range(2):
                            out = self.method(v, "add", [self.make(s, arr("W", deg=-1), "pt"), self.make(s, STR, "nm")], {}, s)
                            s = out.st
                elif clsname == "Atom":
                    out = self.new(self.p.cls("Atom"), [], {"name": scalar("str"), "radius": scalar("float"), "color": scalar("str"), "weight": scalar("float"), "mass": scalar("float")}, st)
                    v, s = out.value, out.st
                else:
                    v = self.instance(st, clsname, "recv")
                    s = st
            finally:
                self.tag = t0
                self.I.listeners = ls
            if v is None:
                raise AnalysisError(f"no receiver of class {clsname}")
            self._recv[key] = (v, s)
            self.I.reports.clear()
        v, s = self._recv[key]
        return v, s.copy()

    # -- entry arguments -----------------------------------------------------
    def spec_for(self, fi, cls, pname):
        names = []
        if cls is not None:
            for c in cls.mro():
                names.append(f"{c.name}.{fi.name}")
        elif fi.cls is not None:
            for c in fi.cls.mro():
                names.append(f"{c.name}.{fi.name}")
        else:
            names.append(fi.name)
        for n in names:
            if (n, pname) in BYFUNC:
                return BYFUNC[(n, pname)]
        if pname in CANVAS and (fi.module.name.endswith("plotting") or fi.name.startswith("plot") or fi.name in ("draw", "subplots") or fi.module.name.endswith("disptools")):
            return None
        return BYNAME.get(pname)

    def arguments(self, st, fi, cls=None, choose=None, skip_optional=False):
        """Positional/keyword arguments for an entry.

        choose: {param: spec or 'omit'} overrides; by default optional parameters are
        given their most general value joined with their default."""
        a = fi.node.args
        pos = [x for x in a.posonlyargs + a.args]
        if fi.kind in ("method", "classmethod", "property", "setter"):
            pos = pos[1:]
        ndef = len(a.defaults)
        optional = {x.arg for x in pos[len(pos) - ndef:]} if ndef else set()
        dflt = {}
        for x, d in zip(pos[len(pos) - ndef:] if ndef else [], a.defaults):
            dflt[x.arg] = d
        kwonly = {}
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                dflt[x.arg] = d
                optional.add(x.arg)
        kw = {}
        for x in pos + list(a.kwonlyargs):
            nm = x.arg
            if choose and nm in choose:
                if choose[nm] == "omit":
                    continue
                v = self.make(st, choose[nm], nm)
                if v is not None:
                    kw[nm] = v
                continue
            if nm in optional and skip_optional:
                continue
            spec = self.spec_for(fi, cls, nm)
            if spec is None:
                if nm in CANVAS:
                    if nm not in optional:
                        kw[nm] = V(frozenset(["any"]), deps=frozenset([f"P:{nm}"]))
                    continue
                spec = self.guess(x, dflt.get(nm))
            v = self.make(st, spec, nm)
            if v is None:
                continue
            if nm in optional and not (choose and nm in choose):
                d = self.I.default_value(fi, nm, dflt[nm], st)
                v = join(v, d).dep(frozenset([f"P:{nm}"]))
            kw[nm] = v
        if a.kwarg and choose:
            for nm in choose:
                if nm not in kw and choose[nm] != "omit" and nm not in {x.arg for x in pos + list(a.kwonlyargs)}:
                    kw[nm] = self.make(st, choose[nm], nm)
        args = []
        if a.vararg:
            spec = None
            for c in ([cls] if cls else []) + ([fi.cls] if fi.cls else []) + [None]:
                key = (f"{c.name}.{fi.name}" if c else fi.name, "*")
                if key in BYFUNC:
                    spec = BYFUNC[key]
                    break
            if spec is not None:
                names = [x.arg for x in pos]
                args = [kw.pop(nm) for nm in names if nm in kw]
                args.append(self.make(st, spec, "*args"))
        return args, kw

    def guess(self, x, d):
        """Seed of a parameter the tables do not name."""
        ann = ast.unparse(x.annotation) if x.annotation is not None else ""
        if isinstance(d, ast.Constant) and d.value is not None:
            c = d.value
            if isinstance(c, bool):
                return BOOL
            if isinstance(c, int):
                return num("int")
            if isinstance(c, float):
                return num("float")
            if isinstance(c, str):
                return STR
        if ann in ("int",):
            return num("int")
        if ann in ("float",):
            return num("float")
        if ann in ("bool",):
            return BOOL
        if ann in ("str",):
            return STR
        if "Callable" in ann:
            return ("callable", "any")
        return ANY


STAGES = {
    "new": [],
    "atoms": [("add_atom", {"pos": POS, "atom": ("inst", "Atom")}), ("add_atom", {"pos": POS})],
}
STAGES["connected"] = STAGES["atoms"] + [("add_connections", {"num_distances": INT, "analyze": C(False)})]
STAGES["analyzed"] = STAGES["connected"] + [("analyze", {})]
STAGES["built"] = STAGES["analyzed"] + [("build", {"shape": arr("W", deg=1)})]
STAGES["mapped"] = STAGES["built"] + [("dmap", {})]
STAGES["periodic"] = STAGES["built"] + [("set_periodic", {"axis": INT})]
STAGES["grown"] = STAGES["periodic"] + [("repeat", {"num": INT})]

LAT_STAGES = {
    "LatticeBasis": ["new"],
    "LatticeStructure": ["new", "atoms", "analyzed"],
    "Lattice": ["atoms", "analyzed", "built", "periodic"],
    "LatticeData": ["built", "periodic"],
    "DataMap": ["new"],
    "WignerSeitzCell": ["new"],
    "DispersionPath": ["points"],
    "Atom": ["new"],
    "Shape": ["new"], "Circle": ["new"], "Donut": ["new"], "ConvexHull": ["new"],
    "KDTree": ["new"],
}


def public_methods(cls, own=False):
    """(name, FunctionInfo) of the public methods and properties along the MRO."""
    seen = {}
    for c in ([cls] if own else cls.mro()):
        for nm, fi in c.methods.items():
            if nm in seen:
                continue
            if nm.startswith("_") and nm not in PUBLIC_DUNDER:
                continue
            seen[nm] = fi
    return sorted(seen.items())


def public_functions(p):
    for m in p.modules.values():
        for nm, (kind, obj) in sorted(m.names.items()):
            if kind == "func" and obj.module is m and not nm.startswith("_"):
                yield obj
