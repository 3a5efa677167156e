"""Life-cycle rules: C10 bookkeeping, C11 documented errors, C12 failed calls, C13 outdated analyses."""
import ast

from ..affine import WEIGHTS, Affine, isnum
from ..core import Entry, Result, entries, parallel, stable_path
from ..loader import AnalysisError, ClassInfo
from ..scenario import C, INT, NONE, POS, STAGES, World, arr, is_mutator, public_methods
from ..values import EMPTY, NC, State, V, const, scalar
from .caches import _deepdeps

WRITES = ("write", "del")


# ---------------------------------------------------------------------------- C12
C12_STAGES = {"LatticeStructure": ["new", "atoms", "analyzed"], "Lattice": ["atoms", "analyzed", "built", "periodic"], "LatticeData": ["built", "periodic"], "DispersionPath": ["points"]}


def on_demand(p):
    """Attributes that queries fill in: dropping one loses nothing."""
    out, changing = set(), set()
    every = [(c, nm, fi) for c in p.classes.values() for nm, fi in c.methods.items()]
    while True:  # mutators and the private helpers they use
        n = len(changing)
        for c, nm, fi in every:
            if nm == "__init__" or is_mutator(fi, c) or nm in changing:
                changing |= {a.attr for a in ast.walk(fi.node) if isinstance(a, ast.Attribute) and a.attr.startswith("_") and not a.attr.startswith("__")}
        if len(changing) == n:
            break
    for c, nm, fi in every:
        me = [a.arg for a in fi.node.args.args[:1]]
        if nm == "__init__" or is_mutator(fi, c) or nm in changing or not me or me[0] == "cls" or any(isinstance(d, ast.Name) and d.id in ("classmethod", "staticmethod") for d in fi.node.decorator_list):
            continue
        for n in ast.walk(fi.node):
            for t in (n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign)) else []):
                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == me[0]:
                    out.add((c.name, t.attr))
    return out


def c12_part(p, R, dim, cname, stage):
    w = World(p, dim)
    cls = p.cls(cname)
    demand = on_demand(p)
    for nm, fi in public_methods(cls):
        if not is_mutator(fi, cls):
            continue
        e = Entry(w, cls, fi, stage).prepare()
        own = w.I.reach(e.recv, e.st)
        calls = []

        def listen(I, ev, st):
            if ev.kind not in WRITES or ev.obj not in own:
                return
            if ev.kind == "write" and ev.val is not None and ev.val.isnone and isinstance(ev.field, str):
                if any((c.name, ev.field) in demand for c in st.heap[ev.obj].cls.mro()):
                    return  # dropping something that is computed on demand
                old = e.st.heap[ev.obj].fields.get(ev.field)
                if old is not None and old.isnone:
                    return  # there was nothing to lose
            path = stable_path(own[ev.obj])
            st.flags["may_written"] = st.flags.get("may_written", frozenset()) | {(f"{path}.{ev.field}" if isinstance(ev.field, str) else path, ev.where, ev.chain())}

        def ext(I, name, args, kw, st, node):
            if name == "client.callback":
                calls.append((st.flags.get("may_written", frozenset()), I.stack[-1][0], node))
            return None

        axes = []

        def subscript(I, b, k, st, node):
            # an axis of the caller that does not exist fails where it selects a component
            ax = b.f.get("ax")
            if "P:axis" in k.deps and ax is not None and len(ax) == 1 and ax[0] in ("W", "L", dim) and k.elts is None and not k.fn:
                wr = st.flags.get("may_written", frozenset())
                if not wr:
                    st.flags["axis_known"] = True
                elif st.flags.get("axis_known"):
                    wr = frozenset()
                axes.append((wr, I.stack[-1][0], node))

        w.I.listeners = [listen]
        w.I.hooks["ext"] = ext
        w.I.hooks["subscript"] = subscript
        try:
            e.run()
        finally:
            w.I.listeners = []
            w.I.hooks.pop("ext", None)
            w.I.hooks.pop("subscript", None)
        R.count("mutators_checked")
        for r in e.out.raises:
            if nm in ("add_atom", "add_connection", "add_connections") and any(f.name == "analyze" for f, _ in r["stack"]):
                continue  # the analysis requested along with a configuration that was accepted
            if nm == "analyze" and stage in ("analyzed", "built", "periodic") and w.I.exc_names(r["exc"], r["st"]) & {"NoAtomsError", "NoConnectionsError"}:
                continue  # cannot happen: an analysed lattice has both
            R.count("rejections_examined")
            wr = r["st"].flags.get("may_written")
            if wr:
                f = r["stack"][-1][0]
                names = sorted(w.I.exc_names(r["exc"], r["st"]))
                tgt, where, chain = sorted(wr)[0]
                R.add("C12.partial", f"{fi.qualname}:{f.qualname}:{tgt}", f"{f.module.path}:{getattr(r['node'], 'lineno', 0)} in {f.qualname}",
                      f"{e.name} can raise ({', '.join(names)}) after it has already changed 'self{tgt}' at {where} (state '{stage}', D={dim})", chain)
        for wr, f, node in axes:
            R.count("axis_uses_examined")
            if wr:
                tgt, where, chain = sorted(wr)[0]
                R.add("C12.axis", f"{fi.qualname}:{tgt}", f"{f.module.path}:{getattr(node, 'lineno', 0)} in {f.qualname}",
                      f"{e.name} first looks up the axis it was given, and fails if it does not exist, after it has already changed 'self{tgt}' at {where} (state '{stage}', D={dim})", chain)
        for wr, f, node in calls:
            R.count("callbacks_examined")
            if wr:
                tgt, where, chain = sorted(wr)[0]
                R.add("C12.callback", f"{fi.qualname}:{tgt}", f"{f.module.path}:{getattr(node, 'lineno', 0)} in {f.qualname}",
                      f"{e.name} runs the user's callback, which may raise, after it has already changed 'self{tgt}' at {where} (state '{stage}', D={dim})", chain)
    R.absorb(w)


def c12(p, tier):
    """No path of a mutating call raises, or calls user code, after it has begun to change the receiver."""
    dims = (1, 2, 3, 4) if tier == "thorough" else (1, 2, 3)
    R, _ = parallel(p, c12_part, [(d, c, s) for d in dims for c, ss in C12_STAGES.items() for s in ss])
    return R


# ---------------------------------------------------------------------------- C10
# what describes what: derived attribute -> the data it describes, and the calls that change it
SIZE = {"build", "append", "extend", "repeat", "set", "remove", "reset"}
DERIVED = [
    ("Lattice", "shape", "data.positions", None), ("Lattice", "pos", "data.positions", None),
    ("Lattice", "periodic_axes", "data.pmask", None),
    ("LatticeData", "invalid_idx", "indices", SIZE), ("LatticeData", "neighbors", "indices", SIZE),
    ("LatticeData", "invalid_distidx", "distvals", None), ("LatticeData", "distances", "distvals", None),
    ("LatticeData", "distvals", "invalid_distidx", None),
    ("LatticeStructure", "_num_base", "_atoms", None), ("LatticeStructure", "_positions", "_atoms", None), ("LatticeStructure", "_connections", "_atoms", None),
]
ORDER = {"P:sort_ax", "P:sort_reverse", "P:num_jobs", "P:dtype"}
GEOMETRY = {"P:self._vectors", "P:self._positions"}
# arguments the description has to follow, whatever else it follows
FOLLOWS = {
    ("Lattice", "build"): {"shape": "data.positions", "pos": "data.positions"},
    ("Lattice", "append"): {"shape": "data.positions", "pos": "data.positions"},
    ("Lattice", "extend"): {"shape": "data.positions", "pos": "data.positions"},
    ("Lattice", "repeat"): {"shape": "data.positions", "pos": "data.positions"},
    ("LatticeData", "remove"): {"invalid_idx": "indices", "neighbors": "indices"},
    ("LatticeData", "append"): {"invalid_idx": "indices", "invalid_distidx": "distvals", "neighbors": "indices"},
    ("LatticeData", "set"): {"invalid_idx": "indices", "invalid_distidx": "distvals", "distances": "distvals"},
    ("LatticeData", "add_neighbors"): {"invalid_distidx": "distvals", "distances": "distvals"},
    ("LatticeData", "set_periodic"): {"invalid_distidx": "distvals", "distances": "distvals"},
}


def insts(st, recv):
    """{class name: object} of the receiver and of the data it holds."""
    out = {}
    for m in recv.mem:
        o = st.heap.get(m)
        if o is None or not isinstance(o.cls, ClassInfo):
            continue
        out["self"] = m
        d = o.fields.get("data")
        if d is not None and o.cls.name == "Lattice":
            for k in d.mem:
                if isinstance(st.heap[k].cls, ClassInfo) and st.heap[k].cls.name == "LatticeData":
                    out["data"] = k
    return out


class Meaning(Affine):
    """Stores of derived attributes whose value cannot be what the attribute describes."""

    def __init__(self, I):
        super().__init__(I, report=False)
        I.listeners.remove(self.listen)

    def p_builtin(self, v, a, k):
        v = super().p_builtin(v, a, k)
        return v.with_f(extreme=a[0]) if a[0] in ("max", "min") and v.elts is None else v

    def func(self, v, fn, args, kw, st, node):
        v = super().func(v, fn, args, kw, st, node)
        return v.with_f(extreme=fn) if fn in ("max", "min", "amax", "amin", "maximum", "minimum", "nanmax", "nanmin") and v.elts is None else v

    def listen(self, I, ev, st):
        if ev.kind != "write" or not isinstance(ev.field, str) or ev.val is None:
            return
        o = st.heap.get(ev.obj)
        c = o.cls.name if o is not None and isinstance(o.cls, ClassInfo) else None
        if c == "LatticeData" and ev.field in ("invalid_idx", "invalid_distidx") and ev.val.f.get("extreme"):
            I.report("value", ev.node, f"'{ev.field}' is set to a {ev.val.f['extreme']}imum instead of the marker that follows the last entry" if ev.val.f["extreme"] in ("max", "min")
                     else f"'{ev.field}' is set to the result of {ev.val.f['extreme']}() instead of the marker that follows the last entry")
        if ev.field in ("shape", "pos"):
            w, got = self.meaning(ev.obj, ev.field, st), self.w(ev.val, st)
            if isnum(w) and isnum(got) and got != w:
                I.report("value", ev.node, f"'{ev.field}', which is {self.name(w)}, is set to {self.name(got)}")


def alternatives(w, fi, cls):
    """All arguments at once, then every kind of object that an argument may be on its own."""
    yield None
    a = fi.node.args
    for x in (a.posonlyargs + a.args)[1:] + list(a.kwonlyargs):
        spec = w.spec_for(fi, cls, x.arg)
        if spec is not None and spec[0] == "alt" and any(s[0] == "inst" for s in spec[1]):
            for s in spec[1]:
                yield {x.arg: s}


def c10_part(p, R, dim, cname, stage):
    w = World(p, dim)
    w.I.fulldeps = True
    w.exact = True
    w.weights = WEIGHTS
    meaning = Meaning(w.I)
    cls = p.cls(cname)
    mro = {c.name for c in cls.mro()}
    for nm, fi, choose in ((nm, fi, c) for nm, fi in public_methods(cls) if is_mutator(fi, cls) for c in alternatives(w, fi, cls)):
        e = Entry(w, cls, fi, stage).prepare(choose)
        ids = insts(e.st, e.recv)
        rules = []
        for owner, der, src, only in DERIVED:
            if only is not None and nm not in only:
                continue
            if owner in mro:
                rules.append((("self", der), ("data", src[5:]) if src.startswith("data.") else ("self", src)))
            elif owner == "LatticeData" and "data" in ids:
                rules.append((("data", der), ("data", src)))

        def touched(I, ev, st):
            """(holder, field) pairs a store changes."""
            cur = insts(st, e.recv)
            o = st.heap.get(ev.obj)
            hit = set()
            if o is None:
                return hit
            for h, oid in cur.items():
                if o.kind == "inst":
                    if ev.obj == oid:
                        hit.add((h, ev.field))
                else:
                    for a, v in st.heap[oid].fields.items():
                        if ev.obj in v.mem and a != "data":
                            hit.add((h, a))
            return hit

        def listen(I, ev, st):
            if ev.kind not in WRITES:
                return
            hit = touched(I, ev, st)
            if not hit:
                return
            if ("self", "data") in hit:
                hit |= {("data", a) for a in ("indices", "positions", "neighbors", "distances", "distvals", "pmask", "invalid_idx", "invalid_distidx")}
            # single entries set at given positions do not translate the others
            entry = isinstance(ev.info, tuple) and len(ev.info) == 3 and isinstance(ev.info[1], V) and ev.info[1].elts is not None and not any(x.fn and x.fn[0][0] == "slice" for x in ev.info[1].elts[:1])
            for i, (der, src) in enumerate(rules):
                if der in hit and not (entry and der[1] == "distances" and src[1] == "distvals"):
                    st.flags[f"der{i}"] = True
                    st.flags.pop(f"may_alone{i}", None)
            for i, (der, src) in enumerate(rules):
                if src in hit and der not in hit and not st.flags.get(f"der{i}"):
                    st.flags[f"may_alone{i}"] = st.flags.get(f"may_alone{i}", frozenset()) | {(ev.where, ev.chain())}

        w.I.listeners = [listen, meaning.listen]
        w.I.reports.clear()
        try:
            e.run()
        finally:
            w.I.listeners = []
        R.count("mutators_checked")
        for r in w.I.reports.values():
            if r["rule"] == "value":
                R.add("C10.value", r["func"], r["where"], f"{r['msg']} (reached from {e.name}, state '{stage}', D={dim})", r["chain"])
        if not e.out.ok:
            continue
        st = e.out.st
        fin = insts(st, e.recv)
        for i, (der, src) in enumerate(rules):
            if der[1] not in st.heap[fin[der[0]]].fields or src[1] not in st.heap[fin[src[0]]].fields:
                continue
            R.count("pairs_checked")
            al = st.flags.get(f"may_alone{i}")
            if al:
                where, chain = sorted(al)[0]
                R.add("C10.forgotten", f"{fi.qualname}:{der[1]}<-{src[1]}", where,
                      f"{e.name} changes '{src[1]}' and can return without updating '{der[1]}', which describes it (state '{stage}', D={dim})", chain)
        for der, src in FOLLOWS.get((cname, nm), {}).items():
            def labels(path):
                h, a = ("data", path[5:]) if path.startswith("data.") else ("self", path)
                v = st.heap[fin[h]].fields.get(a)
                return None if v is None else {d for d in _deepdeps(w.I, v, st) if d.startswith("P:")}
            ls, ld = labels(src), labels(der)
            if ls is None or ld is None:
                continue
            names = {f"P:{q}" for q in list(e.kw) + ["*args"]}
            if cname == "Lattice":
                names |= {d for d in ls if d in GEOMETRY}
            R.count("follow_obligations", len(ls & names))
            miss = (ls & names) - ORDER - ld
            if miss:
                R.add("C10.outdated", f"{fi.qualname}:{der}", f"{fi.module.path}:{fi.node.lineno} in {fi.qualname}",
                      f"after {e.name}() '{src}' depends on {', '.join(sorted(x[2:] for x in miss))}, but '{der}', which describes it, does not (state '{stage}', D={dim})")
    R.absorb(w)


def c10(p, tier):
    """Whenever a call changes sites, neighbors or distance levels, it also updates the attributes that describe them, on every path."""
    dims = (1, 2, 3, 4) if tier == "thorough" else (1, 2, 3)
    R, _ = parallel(p, c10_part, [(d, c, s) for d in dims for c, ss in C12_STAGES.items() if c != "DispersionPath" for s in ss])
    return R


# ---------------------------------------------------------------------------- C11 / C13
N_DIST = ("num", "int", 0, None)
OPS = {
    "add_atom": ("add_atom", {"pos": POS}),
    "add_connection": ("add_connection", {"atom1": C(0), "atom2": C(0), "num_distances": N_DIST}),
    "add_connection+analyze": ("add_connection", {"atom1": C(0), "atom2": C(0), "num_distances": N_DIST, "analyze": C(True)}),
    "add_connections-analyze": ("add_connections", {"num_distances": N_DIST, "analyze": C(False)}),
    "add_connections": ("add_connections", {"num_distances": N_DIST}),
    "analyze": ("analyze", {}),
    "build": ("build", {"shape": arr("W", deg=1)}),
    "set_periodic": ("set_periodic", {"axis": C(0)}),
}
NEEDS_ANALYSIS = ["get_neighbors", "get_neighbor_positions", "get_neighbor_vectors", "fourier_weights", "build"]


class Expected:
    """The documented life cycle of a lattice."""

    def __init__(self):
        self.atoms = self.conns = self.analyzed = self.built = False

    def step(self, op):
        """Applies an accepted call; False if the call has to be rejected."""
        if op == "add_atom":
            self.atoms, self.conns, self.analyzed = True, False, False
        elif op.startswith("add_connection"):
            if not self.atoms:
                return False
            self.conns, self.analyzed = True, op in ("add_connections", "add_connection+analyze")
        elif op == "analyze":
            if not (self.atoms and self.conns):
                return False
            self.analyzed = True
        elif op == "build":
            if not (self.conns and self.analyzed):
                return False
            self.built = True
        elif op == "set_periodic" and not (self.built and self.analyzed):
            return False
        return True

    def rejects(self, op):
        """Documented errors of a call in this state; empty if it is accepted."""
        if op == "analyze":
            return {"NoAtomsError"} if not self.atoms else {"NoConnectionsError"} if not self.conns else set()
        if op == "build":
            out = set()
            if self.atoms and not self.conns:
                out.add("NoConnectionsError")
            if not self.analyzed:
                out.add("NotAnalyzedError")
            return out
        if op in NEEDS_ANALYSIS or op in ("compute_neighbors", "kdtree"):
            return set() if self.analyzed else {"NotAnalyzedError"}
        if op == "set_periodic":
            return {"NotBuiltError"} if not self.built else set()
        return set()

    def key(self):
        return self.atoms, self.conns, self.analyzed, self.built


def histories(n, cname):
    """Histories of accepted configuration calls up to length n."""
    ops = [o for o in OPS if cname == "Lattice" or o not in ("build", "set_periodic")]
    level = [()]
    yield ()
    for _ in range(n):
        nxt = []
        for h in level:
            for o in ops:
                x = Expected()
                if all(x.step(q) for q in h) and x.step(o):
                    nxt.append(h + (o,))
        yield from nxt
        level = nxt


def outcome(w, out):
    names = set()
    for r in out.raises:
        ns = w.I.exc_names(r["exc"], r["st"])
        names.add(next((m for m in ("NoAtomsError", "NoConnectionsError", "NotAnalyzedError", "NotBuiltError", "SiteOccupiedError") if m in ns), "/".join(sorted(ns)) or "?"))
    return out.ok, names


def runhist(w, cname, hist, tag="self."):
    """State of a lattice after a history of configuration calls, or None if the analysis finds no normal exit."""
    t0, w.tag = w.tag, tag
    try:
        v, s = w._construct(w.p.cls(cname), State())
        for i, o in enumerate(hist):
            name, kw = OPS[o]
            w.tag = f"{tag}{i}."
            args = {k: w.make(s, sp, f"{name}.{k}") for k, sp in kw.items()}
            out = w.method(v, name, (), args, s)
            if not out.ok:
                return v, None, o
            s = out.st
    finally:
        w.tag = t0
    return v, s, None


def options(w, fi):
    """Calls with the optional arguments left out, and with each of them given on its own."""
    yield {}
    a = fi.node.args
    pos = a.posonlyargs + a.args
    for x, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
        if isinstance(d, ast.Constant) and isinstance(d.value, bool):
            yield {x.arg: C(not d.value)}
        elif w.spec_for(fi, fi.cls, x.arg) is not None:
            yield {x.arg: w.spec_for(fi, fi.cls, x.arg)}


def query(w, v, s, name, choose=None):
    fi = None
    for m in v.mem:
        fi = s.heap[m].cls.lookup(name)
    if fi is None:
        raise AnalysisError(f"public method {name} not found")
    st = s.copy()
    if fi.kind == "property":
        return fi, w.call(fi, [], {}, st, selfv=v)
    args, kw = w.arguments(st, fi, fi.cls, choose=choose, skip_optional=True)
    return fi, w.call(fi, args, kw, st, selfv=v)


def c11_part(p, R, dim, cname, n, k, m):
    w = World(p, dim)
    w.exact = True
    seen = {}
    for i, h in enumerate(histories(n, cname)):
        if i % m != k:
            continue
        x = Expected()
        for o in h:
            x.step(o)
        v, s, bad = runhist(w, cname, h)
        text = " -> ".join(h) or "construction"
        R.count("histories")
        if s is None:
            fi = p.cls(cname).lookup(OPS[bad][0])
            R.add("C11.rejected", f"{cname}.{bad}:{len(h)}", f"{fi.module.path}:{fi.node.lineno} in {fi.qualname}",
                  f"the history {text} of a {cname} is rejected at '{bad}' although every call is allowed there (D={dim})")
            continue
        for q in NEEDS_ANALYSIS + ["compute_neighbors", "kdtree", "analyze", "set_periodic"]:
            if q == "set_periodic" and x.built and not x.analyzed:
                continue  # depends on the axis: removing the boundary conditions needs no analysis
            if p.cls(cname).lookup(q) is None or q == "kdtree" and not x.built:
                continue
            want = x.rejects(q)
            if want and (q, x.key()) not in seen:
                seen[q, x.key()] = True
                for ch in list(options(w, p.cls(cname).lookup(q)))[1:]:
                    if q == "set_periodic":
                        continue  # every axis is rejected alike below
                    fi, out = query(w, v, s, q, ch)
                    ok, names = outcome(w, out)
                    R.count("option_obligations")
                    given = ", ".join(ch)
                    if not names & want or (ok or names - want - {"NoConnectionsError", "ValueError"}) and want != {"NoConnectionsError"}:
                        R.add("C11.option", f"{cname}.{q}:{given}", f"{fi.module.path}:{fi.node.lineno} in {fi.qualname}",
                              f"{cname}.{q} with '{given}' given after {text} can {'return normally' if ok else 'raise ' + ', '.join(sorted(names - want))} instead of raising {' or '.join(sorted(want))} (D={dim})")
            fi, out = query(w, v, s, q)
            ok, names = outcome(w, out)
            R.count("call_obligations")
            if not want:
                if not ok:
                    R.add("C11.rejected", f"{cname}.{q}", f"{fi.module.path}:{fi.node.lineno} in {fi.qualname}",
                          f"{cname}.{q} never succeeds after {text} although the lattice is ready for it (raises {sorted(names)}, D={dim})")
                continue
            if not names & want:
                R.add("C11.not-raised", f"{cname}.{q}:{'/'.join(sorted(want))}", f"{fi.module.path}:{fi.node.lineno} in {fi.qualname}",
                      f"{cname}.{q} after {text} never raises {' or '.join(sorted(want))} (it {'returns' if ok else 'raises ' + str(sorted(names))}, D={dim})")
            elif ok and want != {"NoConnectionsError"}:
                R.add("C11.accepted", f"{cname}.{q}:{'/'.join(sorted(want))}", f"{fi.module.path}:{fi.node.lineno} in {fi.qualname}",
                      f"{cname}.{q} can return normally after {text}, where it has to raise {' or '.join(sorted(want))} (D={dim})")
            elif names - want - {"NoConnectionsError", "ValueError"}:
                R.add("C11.wrong-error", f"{cname}.{q}:{'/'.join(sorted(names - want))}", f"{fi.module.path}:{fi.node.lineno} in {fi.qualname}",
                      f"{cname}.{q} after {text} can raise {', '.join(sorted(names - want))} instead of {' or '.join(sorted(want))} (D={dim})")
    R.absorb(w)


WRONG_DIM = [("build", "shape"), ("build_indices", "shape"), ("build_translation_vectors", "shape"), ("check_points", "shape"), ("add_atom", "pos")]
# (call, arguments, error that must be among its outcomes)
MAY_FAIL = [
    ("built", "add_atom", {"pos": POS}, "SiteOccupiedError"),
    ("built", "add_atom", {"pos": POS, "primitive": C(True)}, "SiteOccupiedError"),
    ("built", "add_atom", {"pos": POS, "neighbors": INT}, "SiteOccupiedError"),
    ("built", "get_atom", {"atom": ("str",)}, "ValueError"),
    ("built", "build", {"shape": arr("W", deg=1), "min_neighbors": INT}, "ValueError"),
]


def c11_args(p, R, dim):
    w = World(p, dim)
    w.exact = True
    w.I.shape_errors = True  # numpy rejects contractions of axes of different length
    cls = p.cls("Lattice")
    for q, par in WRONG_DIM:
        fi = cls.lookup(q)
        if fi is None:
            raise AnalysisError(f"public method {q} not found")
        for n, ch in [(n, ch) for n in sorted({1, dim - 1, dim, dim + 1, dim + 2} - {0}) for ch in options(w, fi) if par not in ch and (n != dim or not ch) and not (dim == 1 and "pos" in ch)]:
            v, st = w.receiver("Lattice", "built")
            args, kw = w.arguments(st, fi, fi.cls, choose=ch, skip_optional=True)
            kw[par] = w.I.mklist(st, w.node(), elts=tuple(scalar("float", frozenset([f"P:{par}"])) for _ in range(n)))
            out = w.call(fi, args, kw, st, selfv=v)
            names = {x for r in out.raises for x in w.I.exc_names(r["exc"], r["st"])}
            R.count("argument_obligations")
            opt = f" and '{', '.join(ch)}' given" if ch else ""
            where = f"{fi.module.path}:{fi.node.lineno} in {fi.qualname}"
            if n != dim and "ValueError" not in names:
                R.add("C11.not-raised", f"Lattice.{q}:dimension", where, f"Lattice.{q} with {n} values for '{par}'{opt} in {dim} dimensions never raises ValueError")
            elif n != dim and out.ok:
                R.add("C11.accepted", f"Lattice.{q}:dimension", where, f"Lattice.{q} can return normally for {n} values for '{par}'{opt} in {dim} dimensions instead of raising ValueError")
            elif n == dim and not out.ok:
                R.add("C11.rejected", f"Lattice.{q}:dimension", where, f"Lattice.{q} never succeeds for the {dim} values of '{par}' it asks for in {dim} dimensions")
    for n in (1, 2, 3):  # a new atom is compared with every atom there is
        fi = cls.lookup("add_atom")
        v, st, _ = runhist(w, "Lattice", ("add_atom",) * n)
        if st is None:
            continue
        out = w.call(fi, [], {"pos": w.make(st, POS, "pos")}, st.copy(), selfv=v)
        known = set()
        for r in out.raises:
            if "SiteOccupiedError" in w.I.exc_names(r["exc"], r["st"]):
                known |= r["st"].pc
        R.count("argument_obligations")
        miss = [i for i in range(n) if f"P:self.{i}.add_atom.pos" not in known]
        if miss:
            R.add("C11.not-raised", "Lattice.add_atom:occupied", f"{fi.module.path}:{fi.node.lineno} in {fi.qualname}",
                  f"Lattice.add_atom never raises SiteOccupiedError for the position of atom {miss[0]} of {n} (D={dim})")
    for stage, q, kws, err in MAY_FAIL:
        fi = cls.lookup(q)
        v, st = w.receiver("Lattice", stage)
        out = w.call(fi, [], {k: w.make(st, sp, k) for k, sp in kws.items()}, st, selfv=v)
        names = {x for r in out.raises for x in w.I.exc_names(r["exc"], r["st"])}
        R.count("argument_obligations")
        if err not in names:
            R.add("C11.not-raised", f"Lattice.{q}:{err}", f"{fi.module.path}:{fi.node.lineno} in {fi.qualname}", f"Lattice.{q} never raises {err} for arguments {sorted(kws)}, whatever they are (D={dim})")
    R.absorb(w)


def c11_any(p, R, kind, *a):
    (c11_part if kind == "h" else c11_args)(p, R, *a)


def c11(p, tier):
    """After every history of configuration calls, each call that is not allowed yet raises its documented error and no other outcome."""
    n = 5 if tier == "thorough" else 4
    dims = (1, 2, 3, 4) if tier == "thorough" else (1, 2, 3)
    R, _ = parallel(p, c11_any, [("a", d) for d in (1, 2, 3, 4)] + [("h", d, c, n, k, 8) for d in dims for c in ("LatticeStructure", "Lattice") for k in range(8)])
    return R


CHANGES = ["add_atom", "add_connection", "add_connection+analyze", "add_connections-analyze", "add_connections"]
LABELS = {"add_atom": "add_atom.pos", "add_connection": "add_connection.num_distances", "add_connections": "add_connections.num_distances"}
# what reports on the neighbors of the configured lattice
ANSWERS = ["get_neighbors", "get_neighbor_positions", "get_neighbor_vectors", "fourier_weights", "num_neighbors", "base_neighbors", "distances", "compute_neighbors"]


def again(w, v, s, name):
    """A call on a lattice; other lattices among its arguments are the lattice itself."""
    fi = next(iter(s.heap[m].cls.lookup(name) for m in v.mem))
    st = s.copy()
    if name in ("append", "compute_connections"):
        return fi, w.call(fi, [v], {}, st, selfv=v)
    args, kw = w.arguments(st, fi, fi.cls, skip_optional=True)
    if name == "set_periodic":
        args, kw = [const(0)], {}
    return fi, w.call(fi, args, kw, st, selfv=v)


def c13_part(p, R, dim, cname, before, change, after):
    """A lattice that has been analysed, a change of its configuration, and what it answers then."""
    w = World(p, dim)
    w.exact = True
    w.I.fulldeps = True
    h = before + (change,) + after
    x = Expected()
    if not all(x.step(o) for o in h):
        return
    v, s, bad = runhist(w, cname, h)
    text = " -> ".join(h)
    R.count("histories")
    if s is None:
        fi = p.cls(cname).lookup(OPS[bad][0])
        R.add("C13.rejected", f"{cname}.{bad}", f"{fi.module.path}:{fi.node.lineno} in {fi.qualname}", f"the history {text} of a {cname} is rejected at '{bad}' (D={dim})")
        R.absorb(w)
        return
    if not x.analyzed:
        for q in NEEDS_ANALYSIS:
            if q == "build" and cname != "Lattice":
                continue
            fi, out = query(w, v, s, q)
            R.count("outdated_queries")
            if out.ok:
                R.add("C13.outdated", f"{cname}.{q}:{change}", f"{fi.module.path}:{fi.node.lineno} in {fi.qualname}",
                      f"{cname}.{q} can answer from the old analysis after {text}: it returns instead of raising NotAnalyzedError (D={dim})")
        for q in ["compute_neighbors"] + (["kdtree"] if cname == "Lattice" else []) + (["set_periodic", "append", "extend", "repeat", "compute_connections"] if x.built else []):
            if p.cls(cname).lookup(q) is None:
                continue
            fi, out = again(w, v, s, q)
            R.count("outdated_queries")
            if out.ok:
                R.add("C13.outdated", f"{cname}.{q}:{change}", f"{fi.module.path}:{fi.node.lineno} in {fi.qualname}",
                      f"{cname}.{q} can work with the old analysis after {text}: it returns instead of raising NotAnalyzedError (D={dim})")
        for q in ("distances", "num_neighbors", "base_neighbors"):
            fi, out = query(w, v, s, q)
            R.count("outdated_queries")
            if out.ok and not out.value.isnone:
                R.add("C13.outdated", f"{cname}.{q}:{change}", f"{fi.module.path}:{fi.node.lineno} in {fi.qualname}",
                      f"{cname}.{q} still is that of the old analysis after {text} (D={dim})")
    else:
        ch = h[len(before)].split("+")[0].split("-")[0]
        con = [i for i, o in enumerate(h) if i >= len(before) and o.startswith("add_connection")]
        # the last connections configured count, and a new atom does in any case
        lab = {f"P:self.{i}.{LABELS[h[i].split('+')[0].split('-')[0]]}" for i in con[-1:]}
        if ch == "add_atom":
            lab.add(f"P:self.{len(before)}.{LABELS[ch]}")
        for q in ANSWERS + (["build"] if cname == "Lattice" else []):
            fi, out = query(w, v, s, q)
            if not out.ok:
                continue
            R.count("answers_checked")
            if q == "build":
                d = set()
                for m in v.mem:
                    for k in out.st.heap[m].fields["data"].mem:
                        d |= _deepdeps(w.I, out.st.heap[k].fields["neighbors"], out.st)
            else:
                d = _deepdeps(w.I, out.value, out.st)
            miss = lab - d
            if miss:
                R.add("C13.ignored", f"{cname}.{q}:{ch}", f"{fi.module.path}:{fi.node.lineno} in {fi.qualname}",
                      f"after {text} the answer of {cname}.{q} does not depend on {', '.join(sorted(m.split('.', 2)[2] for m in miss))} of the new configuration (D={dim})")
    R.absorb(w)


def written(w, v, s, name, args=None):
    """(attributes of the receiver a call may set, those it sets on every path, its outcome)."""
    may = set()

    def listen(I, ev, st):
        if ev.kind not in WRITES:
            return
        for m in v.mem:
            o = st.heap[m]
            for a in [ev.field] if ev.obj == m else [a for a, x in o.fields.items() if ev.obj in x.mem]:
                may.add(a)
                st.flags[f"set:{a}"] = True

    w.I.listeners = [listen]
    try:
        out = w.method(v, name, (), args or {}, s.copy())
    finally:
        w.I.listeners = []
    return may, {a for a in may if out.ok and out.st.flags.get(f"set:{a}")}, out


def c13_again(p, R, dim, cname):
    """An analysis replaces everything the previous one stored."""
    w = World(p, dim)
    w.exact = True
    fi = p.cls(cname).lookup("analyze")
    v, s, bad = runhist(w, cname, ("add_atom", "add_connections-analyze"))
    if s is None:
        raise AnalysisError("no first analysis")
    first, must, out = written(w, v, s, "analyze")
    first = {a for a in must if not (out.ok and any(out.st.heap[m].fields[a].isnone for m in v.mem if a in out.st.heap[m].fields))}
    for ch in ("add_connection", "add_connections-analyze"):
        for pre in (("add_atom", "add_connections", ch), ("add_atom", "add_connections", "add_atom", ch)):
            v, s, bad = runhist(w, cname, pre)
            if s is None:
                continue
            may, must, out = written(w, v, s, "analyze")
            R.count("repeated_analyses")
            R.count("analysis_attributes", len(first))
            for a in sorted(first - must):
                if out.ok:
                    R.add("C13.kept", f"{cname}.analyze:{a}", f"{fi.module.path}:{fi.node.lineno} in {fi.qualname}",
                          f"analyze() after {' -> '.join(pre)} can return with the '{a}' of the previous analysis, which belongs to another configuration (D={dim})")
    R.absorb(w)


def c13_any(p, R, *a):
    (c13_again if len(a) == 2 else c13_part)(p, R, *a)


def c13(p, tier):
    """After atoms or connections change, nothing is answered from the old analysis: the queries raise until the next analysis, which takes the change into account."""
    dims = (1, 2, 3, 4) if tier == "thorough" else (1, 2, 3)
    base = ("add_atom", "add_connections")
    befores = [base, ("add_atom", "add_connection+analyze"), ("add_atom", "add_atom", "add_connections")]
    jobs = [(d, c) for d in dims for c in ("LatticeStructure", "Lattice")]
    for cname in ("LatticeStructure", "Lattice"):
        bs = befores + ([base + ("build",), base + ("build", "set_periodic")] if cname == "Lattice" else [])
        for b in bs:
            for c in CHANGES:
                for a in ((), ("analyze",), ("add_connections",), ("add_connection+analyze",), ("add_connection", "analyze"), ("add_connections-analyze", "analyze")):
                    for d in dims:
                        jobs.append((d, cname, b, c, a))
    R, _ = parallel(p, c13_any, jobs)
    return R
