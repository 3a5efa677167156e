"""Dependence rules: C20 worker counts, C21 options, C22 copies and serialisation."""
import itertools

from ..core import Entry, Result, entries, parallel
from ..loader import ClassInfo, FunctionInfo
from ..scenario import BOOL, CANVAS, C, NONE, World, arr, ctor_kw, public_methods
from ..values import EMPTY, NC, V
from .caches import _deepdeps

STG = {
    "LatticeBasis": ["new"], "LatticeStructure": ["analyzed"], "Lattice": ["built", "periodic"], "LatticeData": ["built", "periodic"],
    "DataMap": ["new"], "WignerSeitzCell": ["new"], "DispersionPath": ["points"], "Atom": ["new"],
    "Shape": ["new"], "Circle": ["new"], "Donut": ["new"], "ConvexHull": ["new"], "KDTree": ["new"],
}
DRAWING = ("plot", "draw", "subplot", "interpolate", "hide_box", "set_", "use_", "connection_color")


def drawing(fi):
    return fi.name.startswith(DRAWING) or fi.module.name.endswith(("plotting",)) or (fi.module.name.endswith("disptools") and fi.cls is None)


class Obs:
    """Everything a caller can observe of one call, as the set of labels it depends on."""

    def __init__(self, w):
        self.w = w
        self.side = set()
        self.hook = w.I.hooks

    def __enter__(self):
        def ext(I, name, args, kw, st, node):
            if name.startswith(("pickle.", "warnings.", "os.", "client.")):
                self.note(I, args, kw, st)
            return None

        def unk(I, f, args, kw, st, node):
            if any(x[0] == "umeth" and x[2].fn and any(y[0] == "ext" and y[1].startswith("logging") for y in x[2].fn) for x in f.fn or ()):
                return
            self.note(I, args, kw, st)
        self.old = dict(self.hook)
        self.hook["ext"] = ext
        return self

    def note(self, I, args, kw, st):
        for a in list(args) + list(kw.values()):
            self.side |= _deepdeps(I, a, st)
        self.side |= st.pc

    def __exit__(self, *a):
        self.hook.clear()
        self.hook.update(self.old)

    def labels(self, e):
        I = self.w.I
        d = set(self.side)
        if e.out.ok:
            d |= _deepdeps(I, e.out.value, e.out.st)
        for r in e.out.raises:
            d |= r["st"].pc | r["exc"].deps
        own = I.reach(e.recv, e.st) if e.recv is not None else {}
        for ev in e.out.events:
            if ev.kind not in ("write", "del"):
                continue
            d |= ev.pc
            if ev.val is not None:
                d |= _deepdeps(I, ev.val, e.out.st)
            if isinstance(ev.info, V):
                d |= ev.info.deps
            elif isinstance(ev.info, tuple):
                for x in ev.info:
                    if isinstance(x, V):
                        d |= x.deps
        return d



# options that by their documentation do nothing in certain combinations:
# (function, option) -> condition on the other arguments
def _obj(c, nm="shape"):
    return isinstance(c.get(nm), tuple) and c[nm][0] == "inst"


SILENT = {
    ("build_indices", "pos"): _obj, ("build_translation_vectors", "pos"): _obj, ("build", "pos"): _obj, ("check_points", "pos"): _obj,
    ("check_points", "relative"): _obj, ("build", "primitive"): _obj,
    ("append", "sort_reverse"): lambda c: c.get("sort_ax") == NONE, ("extend", "sort_reverse"): lambda c: c.get("sort_ax") == NONE,
    ("repeat", "sort_reverse"): lambda c: c.get("sort_ax") == NONE,
    ("sort", "indices"): lambda c: c.get("ax") != NONE, ("sort", "ax"): lambda c: False,
    ("meshgrid", "steps"): lambda c: c.get("nums") != NONE, ("meshgrid", "endpoint"): lambda c: c.get("nums") == NONE,
    ("compute_vectors", "beta"): lambda c: c.get("c") == NONE, ("compute_vectors", "gamma"): lambda c: c.get("c") == NONE,
    ("compute_vectors", "alpha"): lambda c: c.get("c") == NONE and c.get("b") == NONE,
}
# 0 is a value like any other for these optional numbers
ZERO = {"distidx", "sort_ax", "sort_axis", "ax", "alpha", "periodic", "axis", "decimals"}
# sequences with optional entries
ITEMS = {"mins", "maxs"}
# switches whose default is "don't care": both positions mean something
BOTH = {"periodic"}
NOT_OPTIONS = {"num_jobs"}


def pins(w, fi, cls):
    """Alternatives of each parameter: [(spec, is the documented default)]."""
    a = fi.node.args
    pos = a.posonlyargs + a.args
    dflt = dict(zip([x.arg for x in pos[len(pos) - len(a.defaults):]], a.defaults)) if a.defaults else {}
    dflt.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
    if fi.kind in ("method", "classmethod", "property", "setter"):
        pos = pos[1:]
    out = {}
    for x in pos + a.kwonlyargs:
        spec = w.spec_for(fi, cls, x.arg)
        if spec is None:
            if x.arg in CANVAS:
                continue
            spec = w.guess(x, dflt.get(x.arg))
        if spec == ("default",):
            continue
        d = getattr(dflt.get(x.arg), "value", "none") if x.arg in dflt else "none"
        if spec == BOOL:
            alts = [(C(True), d is True), (C(False), d is False)]
        elif spec[0] == "alt":
            alts = [(s, s == NONE and d is None) for s in spec[1]]
        else:
            alts = [(spec, False)]
        if d is None:
            if x.arg in ZERO and any(s[0] == "num" or s == ("const", True) for s, _ in alts):
                alts.append((C(0), False))
            if not any(s == NONE for s, _ in alts):
                alts.append((NONE, True))
        out[x.arg] = alts
    return out


def jobs(w, tier):
    for e in entries(w, stages=STG):
        if drawing(e.fi) or e.fi.kind == "property":
            continue
        if e.cls is not None and e.fi.cls is not None and e.cls is not e.fi.cls and e.cls.name in ("LatticeStructure", "Lattice") and e.fi.cls.name in ("LatticeBasis", "LatticeStructure") and tier == "quick":
            continue  # inherited unchanged: decided on the defining class
        yield e


def contexts(P, t):
    """Calling contexts of option t: every value of every other option, one at a time.

    A parameter that takes plain values or an object is pinned to one or the other in
    every context, since the two are handled on separate paths."""
    base = [{}]
    for u in P:
        if u != t:
            kinds = {}
            for s, d in P[u]:
                if not d:
                    kinds.setdefault("inst" if s[0] == "inst" and s[1] != "Atom" else "value", s)
            if len(kinds) > 1:
                base = [{**b, u: s} for b in base for s in kinds.values()]
    for b in base:
        yield b
        for u in P:
            if u != t and len(P[u]) > 1 and u not in b:
                for r, _ in P[u]:
                    yield {**b, u: r}


def values_of(P, t):
    """Groups of values of t; the option has to matter within each group."""
    alts = P[t]

    def isc(s, c):
        return s[0] == "const" and s[1] is c
    if any(isc(s, True) for s, _ in alts) and any(isc(s, False) for s, _ in alts) and not any(d for s, d in alts if s == NONE):
        # a switch: one of its positions may well mean "skip this step"
        return [[C(True), C(False)]]
    return [[s] for s, d in alts if not d and (not isc(s, False) or t in BOTH)]


def options_part(p, R, dim, tier, k, n):
    w = World(p, dim)
    w.I.fulldeps = True
    w.exact = True
    unit = 0
    for e0 in jobs(w, tier):
        P = pins(w, e0.fi, e0.cls)
        if unit % n == k:
            R.count("entry_points", 1 if P else 0)
        for t in P:
            if t in NOT_OPTIONS:
                continue
            if t in ITEMS:
                unit += 1
                if unit % n == k:
                    R.count("option_obligations")
                    zero = ("tuple", C(0))
                    if omitted(w, e0, t, zero, {}, ("tuple", NONE), f"P:{t}."):
                        R.add("C21.zero", f"{e0.fi.qualname}:{t}[*]", f"{e0.fi.module.path}:{e0.fi.node.lineno} in {e0.fi.qualname}",
                              f"{e0.name}({t}=[0, ...]) runs exactly the statements of {e0.name}({t}=[None, ...]) and uses the entries nowhere else: 0 is treated as if the entry had been left out (state '{e0.stage}', D={dim})")
            for group in values_of(P, t):
                for ctx in contexts(P, t):
                    unit += 1
                    if unit % n != k:
                        continue
                    option(R, w, e0, P, t, group, ctx, dim)
    R.absorb(w)


def omitted(w, e0, t, s, ctx, none=NONE, label=None):
    """Is the call with this value of t, as far as the analysis can tell, the call with None?"""
    I = w.I
    runs = []
    I.branchdeps = False
    try:
        for val in (s, none):
            e = Entry(w, e0.cls, e0.fi, e0.stage).prepare(choose={t: val, **ctx})
            I.trace = set()
            with Obs(w) as o:
                e.run()
            runs.append((I.trace, any(d == f"P:{t}" if label is None else d.startswith(label) for d in o.labels(e)), len(e.out.raises), e.out.ok))
            I.trace = None
            if runs[0][1] or none != NONE and runs[-1][1]:
                return False
    finally:
        I.branchdeps, I.trace = True, None
    return runs[0][0] == runs[1][0] and runs[0][2:] == runs[1][2:]


def option(R, w, e0, P, t, group, ctx, dim):
    sil = SILENT.get((e0.fi.name, t))
    got = set()
    for s in group:
        choose = {t: s, **ctx}
        if sil is not None and sil({q: choose.get(q) for q in P}):
            return
        e = Entry(w, e0.cls, e0.fi, e0.stage).prepare(choose=dict(choose))
        if t not in e.kw:
            return
        with Obs(w) as o:
            e.run()
        R.count("calling_contexts")
        got |= o.labels(e)
        if f"P:{t}" in got:
            break
    R.count("option_obligations")
    zero = len(group) == 1 and group[0][0] == "const" and type(group[0][1]) is int and any(s == NONE and d for s, d in P[t])
    if f"P:{t}" in got and zero and omitted(w, e0, t, group[0], ctx):
        R.add("C21.zero", f"{e0.fi.qualname}:{t}", f"{e0.fi.module.path}:{e0.fi.node.lineno} in {e0.fi.qualname}",
              f"{e0.name}({t}={show(group[0])}) runs exactly the statements of {e0.name}({t}=None) and uses the value nowhere else: 0 is treated as if the option had been left out (state '{e0.stage}', D={dim})")
    text = ", ".join(f"{a}={show(b)}" for a, b in ctx.items())
    if f"P:{t}" in got and group == [C(True), C(False)]:
        R.count("option_obligations")
        if omitted(w, e0, t, group[0], ctx, group[1]):
            R.add("C21.no-effect", f"{e0.fi.qualname}:{t}", f"{e0.fi.module.path}:{e0.fi.node.lineno} in {e0.fi.qualname}",
                  f"{e0.name}({t}=True{', ' + text if text else ''}) runs exactly the statements of {e0.name}({t}=False) and uses the value nowhere else (state '{e0.stage}', D={dim})")
    if f"P:{t}" not in got:
        text = ", ".join(f"{a}={show(b)}" for a, b in ctx.items())
        R.add("C21.no-effect", f"{e0.fi.qualname}:{t}", f"{e0.fi.module.path}:{e0.fi.node.lineno} in {e0.fi.qualname}",
              f"{e0.name}({t}={'/'.join(show(s) for s in group)}{', ' + text if text else ''}) does not depend on '{t}': nothing it returns, stores, raises or calls back is influenced by the argument (state '{e0.stage}', D={dim})")


def show(s):
    return repr(s[1]) if s[0] == "const" else {"num": "<number>", "arr": "<array>", "str": "<str>"}.get(s[0], f"<{s[1] if s[0] == 'inst' else s[0]}>")


def c21(p, tier):
    """Every argument of a public call influences what the call returns, stores or raises, for each value of each other option."""
    n = 8
    dims = (2, 3, 4) if tier == "thorough" else (2, 3)  # some options have nothing to act on in one dimension
    parts = [("c", d, k, n) for d in dims for k in range(n)] + [("o", d, tier, k, n) for d in dims for k in range(n)] + [("r", d, s, k, 4) for d in dims for s in ("built", "periodic") for k in range(4)]
    R, _ = parallel(p, _part21, parts)
    return R


def _part21(p, R, kind, *a):
    {"o": options_part, "r": required_part, "c": ctor_part}[kind](p, R, *a)


# what a documented output has to follow, whatever else it follows
_SITES = ("data.indices", "data.positions", "data.neighbors", "data.distances")
_PER = ("data.neighbors", "data.distances", "data.pmask", "data.pnvecs", "data.paxes", "periodic_axes")
_OWN = ("indices", "positions", "neighbors", "distances", "pmask", "pnvecs", "paxes")
REQUIRED = {
    ("Lattice", "build"): [(_SITES, ("shape", "pos", "check", "callback", "min_neighbors", "primitive")), (_PER, ("periodic",)), (("shape", "pos"), ("shape", "pos")), (("primitive",), ("primitive",))],
    ("Lattice", "set_periodic"): [(_PER, ("axis",))],
    ("Lattice", "append"): [(_SITES, ("latt", "ax", "side", "sort_ax", "sort_reverse")), (("shape", "pos"), ("latt", "ax", "side"))],
    ("Lattice", "extend"): [(_SITES, ("size", "ax", "side", "sort_ax", "sort_reverse")), (("shape", "pos"), ("size", "ax", "side"))],
    ("Lattice", "repeat"): [(_SITES, ("num", "ax", "side", "sort_ax", "sort_reverse")), (("shape", "pos"), ("num", "ax", "side"))],
    ("LatticeData", "set"): [(("indices",), ("indices",)), (("positions",), ("positions",)), (("neighbors",), ("neighbors",)), (("distances", "distvals"), ("distances",))],
    ("LatticeData", "sort"): [(_OWN, ("ax", "indices", "reverse"))],
    ("LatticeData", "remove"): [(_OWN, ("sites",))],
    ("LatticeData", "append"): [(_OWN[:4], ("*args",))],
    ("LatticeData", "add_neighbors"): [(("neighbors",), ("site", "neighbors")), (("distances",), ("site", "distances"))],
    ("LatticeData", "set_periodic"): [(("neighbors", "pmask"), ("indices",)), (("distances",), ("indices", "distances")), (("pnvecs",), ("indices", "nvecs")), (("paxes",), ("indices", "axes"))],
}


def fields(w, e):
    """Labels of every attribute of the receiver (and of the data it holds) after a call."""
    I, st, out = w.I, e.out.st, {}
    for m in e.recv.mem:
        for a, v in st.heap[m].fields.items():
            if a == "data" and e.cls.name == "Lattice":
                for k in v.mem:
                    for b, x in st.heap[k].fields.items():
                        out.setdefault("data." + b, set()).update(_deepdeps(I, x, st))
            else:
                out.setdefault(a, set()).update(_deepdeps(I, v, st))
    return out


def required_part(p, R, dim, stage, k, n):
    w = World(p, dim)
    w.I.fulldeps = True
    w.exact = True
    i = 0
    for e in entries(w, stages=dict.fromkeys(STG, [stage]), receivers=["Lattice", "LatticeData"], functions=False, ctors=False):
        req = REQUIRED.get((e.cls.name, e.fi.name))
        if req is None:
            continue
        i += 1
        if i % n != k:
            continue
        e.prepare().run()
        if not e.out.ok:
            continue
        got = fields(w, e)
        for attrs, params in req:
            for a in attrs:
                for q in params:
                    if a not in got or q not in e.kw and q != "*args":
                        continue
                    R.count("output_obligations")
                    if f"P:{q}" not in got[a]:
                        R.add("C21.output", f"{e.fi.qualname}:{q}:{a}", f"{e.fi.module.path}:{e.fi.node.lineno} in {e.fi.qualname}",
                              f"after {e.name}() the attribute '{a}' does not depend on the argument '{q}' on any path (state '{stage}', D={dim})")
    R.absorb(w)


# keyword arguments of constructors and prefabricated lattices: what has to follow which part of them
_KW = {
    "atoms": {"_positions": "atoms.key", "_atoms": "atoms.item"},
    "cons": {"_connections": "cons", "_num_neighbors": "cons", "_base_neighbors": "cons"},
    "shape": {"shape": "shape", "data.indices": "shape", "data.positions": "shape", "data.neighbors": "shape"},
    "periodic": {"periodic_axes": "periodic", "data.pmask": "periodic", "data.pnvecs": "periodic", "data.neighbors": "periodic"},
}


def ctor_part(p, R, dim, k, n):
    """Keyword arguments handed to a constructor or prefabricated lattice take effect."""
    w = World(p, dim)
    w.I.fulldeps = True
    w.exact = True
    i = 0
    for cname in ("LatticeStructure", "Lattice"):
        cls = p.cls(cname)
        for nm, fi in [("__init__", cls.lookup("__init__"))] + [x for x in public_methods(cls) if x[1].kind == "classmethod"]:
            names = ctor_kw(fi, cls)
            if not names:
                continue
            full = {q: (s[1] if s[0] == "alt" else (s,)) for q, s in names.items()}
            full = {q: sorted(s, key=lambda x: x[0] == "const") for q, s in full.items()}
            ctxs = [{q: full[q][0] for q in full}]
            ctxs += [{**ctxs[0], q: s} for q in full for s in full[q][1:]]
            # each of them alone, together with what it builds on
            order = [q for q in ("atoms", "cons", "shape", "periodic") if q in full]
            ctxs += [{q: full[q][0] for q in order[:j]} for j in range(1, len(order))]
            for ctx in ctxs:
                i += 1
                if i % n != k:
                    continue
                e = Entry(w, cls, fi, "new").prepare(choose=ctx)
                w.I.branchdeps = any(v[0] == "const" for v in ctx.values())  # otherwise: that an argument is there or of a certain type is not its value
                e.run()
                w.I.branchdeps = True
                R.count("constructor_calls")
                if not e.out.ok:
                    continue
                e.recv = e.out.value
                if not any(w.I.p.cls(cname) in x.cls.mro() for x in (e.out.st.heap[m] for m in e.recv.mem) if isinstance(x.cls, ClassInfo)):
                    continue
                got = fields(w, e)
                for q in ctx:
                    for attr, lab in _KW[q].items():
                        if attr not in got:
                            continue
                        labs = [lab]
                        if q == "cons" and ctx[q][0] == "keyed":
                            labs = ["cons.key.0", "cons.item"]
                        elif q == "atoms" and attr == "_positions":
                            labs = ["atoms.key.0"]
                        R.count("output_obligations")
                        for x in labs:
                            if not any(d == f"P:{x}" or d.startswith(f"P:{x}.") for d in got[attr]):
                                R.add("C21.output", f"{fi.qualname}:{q}:{attr}", f"{fi.module.path}:{fi.node.lineno} in {fi.qualname}",
                                      f"{cname}.{fi.name}({', '.join(f'{a}={show(b)}' for a, b in ctx.items())}): the attribute '{attr}' of the new lattice does not depend on '{x}' on any path (D={dim})")
    R.absorb(w)


def jobs_part(p, R, dim, k, n):
    """C20 on one slice of the entry points that take a number of workers."""
    w = World(p, dim)
    w.I.fulldeps = True
    w.exact = True
    i = 0
    for e in entries(w, stages=STG):
        a = e.fi.node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        if drawing(e.fi) or "num_jobs" not in names:
            continue
        i += 1
        if i % n != k:
            continue
        P = pins(w, e.fi, e.cls)
        ctxs = [{}] + [{u: r} for u in P if u != "num_jobs" and len(P[u]) > 1 for r, _ in P[u]]
        for ctx in ctxs:
            e1 = Entry(w, e.cls, e.fi, e.stage).prepare(choose=dict(ctx))
            if "num_jobs" not in e1.kw:
                continue
            with Obs(w) as o:
                e1.run()
            R.count("calling_contexts")
            I = w.I
            seen = {}
            if e1.out.ok:
                seen["result"] = _deepdeps(I, e1.out.value, e1.out.st)
                if e1.recv is not None and e1.fi.name != "__init__":
                    seen.update({f"attribute '{a}'": d for a, d in fields(w, e1).items()})
            for r in e1.out.raises:
                seen["raised exception"] = r["st"].pc | r["exc"].deps
            for what, d in seen.items():
                R.count("output_obligations")
                if "P:num_jobs" in d:
                    R.add("C20.workers", f"{e.fi.qualname}:{what}", f"{e.fi.module.path}:{e.fi.node.lineno} in {e.fi.qualname}",
                          f"the {what} of {e.name}() depends on num_jobs other than by handing it to the tree query as its number of workers (state '{e.stage}', D={dim})")
    R.absorb(w)


def c20(p, tier):
    """No result, stored attribute or raised error of a call that takes num_jobs depends on num_jobs; it only reaches the workers argument of the tree query."""
    dims = (1, 2, 3, 4) if tier == "thorough" else (1, 2, 3)
    n = 8
    R, _ = parallel(p, jobs_part, [(d, k, n) for d in dims for k in range(n)])
    if not R.cov.get("calling_contexts"):
        from ..loader import AnalysisError
        raise AnalysisError("no public callable takes num_jobs")
    return R
