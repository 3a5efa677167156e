"""C22: copies, dictionaries and pickles carry everything that defines the object."""
from ..core import parallel
from ..loader import ClassInfo, FunctionInfo
from ..models import deep_copy
from ..scenario import World, is_mutator, public_methods
from ..values import V
from .caches import _deepdeps
from .depend import drawing

# class -> life-cycle states (without filled caches)
COPIED = {
    "LatticeBasis": ["new"], "LatticeStructure": ["new", "atoms", "connected", "analyzed"], "Lattice": ["new", "atoms", "connected", "analyzed", "built", "periodic"],
    "LatticeData": ["built", "periodic"], "DataMap": ["new"], "Shape": ["new"], "Circle": ["new"], "Donut": ["new"], "WignerSeitzCell": ["new"], "DispersionPath": ["points"], "Atom": ["new"],
}
# attributes that are no function of the others (a copy may compute those again)
PRIMARY = {
    "LatticeBasis": ["_vectors"], "LatticeStructure": ["_vectors", "_atoms", "_positions", "_connections"],
    "Lattice": ["_vectors", "_atoms", "_positions", "_connections", "primitive", "periodic_axes"],
    "LatticeData": ["indices", "positions", "neighbors", "distances", "distvals", "pnvecs", "pmask", "paxes", "invalid_idx", "invalid_distidx"],
    "Atom": ["_name", "_weight", "_params"], "DataMap": ["_map", "_indices"], "DispersionPath": ["labels", "points", "n_sect"],
    "Shape": ["pos", "size", "basis"], "Circle": ["pos", "radius"], "Donut": ["pos", "radii"], "WignerSeitzCell": ["points", "edges", "vertices"],
}
# process-wide identity of an atom: a copied atom is a new one
IDENTITY = {("Atom", "_index")}


def label(w, v, st):
    """Marks every attribute of every instance reachable from v with its own label."""
    I = w.I
    own = {m: p for m, p in I.reach(v, st).items()}
    for m in own:
        o = st.heap[m]
        if o.kind != "inst" or not isinstance(o.cls, ClassInfo):
            continue
        o = o.clone()
        mine = {a: x for a, x in o.fields.items() if a in PRIMARY.get(o.cls.name, ())}
        for a, x in mine.items():
            d = frozenset([f"O:{o.cls.name}.{a}"])
            o.fields[a] = x.dep(d)
        st.heap[m] = o
        for a, x in mine.items():
            d = frozenset([f"O:{o.cls.name}.{a}"])
            for k in I.reach(x, st, stop_inst=lambda q: q.kind == "inst"):
                q = st.heap[k].clone()
                if q.kind == "buf":
                    q.std = q.std | d
                q.fields = {n: y.dep(d) for n, y in q.fields.items()}
                if q.elts is not None:
                    q.elts = tuple(y.dep(d) for y in q.elts)
                q.elem = q.elem.dep(d) if q.elem is not None else None
                st.heap[k] = q


def olabels(d):
    return {x for x in d if x.startswith(("O:", "P:self."))}


def ask(w, v, st, cls):
    """Answers of all queries of an object: name -> (labels, error names) ; None if the query never returns."""
    out = {}
    for nm, fi in public_methods(cls):
        if is_mutator(fi, cls) or fi.kind in ("classmethod", "staticmethod", "setter") or drawing(fi) or nm in ("__init__", "__copy__", "copy", "__deepcopy__", "dump", "show", "id"):
            continue
        s = st.copy()
        if fi.kind == "property":
            args, kw = [], {}
        else:
            args, kw = w.arguments(s, fi, cls)
        r = w.call(fi, args, kw, s, selfv=v)
        err = set()
        for x in r.raises:
            err |= set(w.I.exc_names(x["exc"], x["st"])) or {"?"}
        out[nm] = (fi, olabels(_deepdeps(w.I, r.value, r.st)) if r.ok else None, err)
    return out


def compare(R, w, how, cls, stage, v, s, c, s2, where):
    """The copy c (in s2) of v (in s) answers like it and shares nothing with it."""
    I = w.I
    name = f"{cls.name}.{how}"
    if not c.mem or any(s2.heap[m].kind != "inst" or s2.heap[m].cls is not cls for m in c.mem) or c.prim:
        if c.prim & {"any"} and not c.mem:
            return  # made in a way the analysis does not model
        got = sorted({getattr(s2.heap[m].cls, "name", s2.heap[m].kind) for m in c.mem} | set(c.prim))
        R.add("C22.type", name, where, f"{name} of a {cls.name} in state '{stage}' can return {', '.join(got)}")
        return
    mine, other = I.reach(v, s2), I.reach(c, s2)
    R.count("objects_compared", len(other))
    for k in sorted(set(mine) & set(other), key=str):
        o = s2.heap[k]
        if o.kind == "ext" or str(k).startswith("('glob'") or o.kind == "inst" and not o.fields:
            continue
        if o.kind == "buf" and mine[k].rsplit(".")[-1].startswith("invalid_"):
            continue  # a number
        R.add("C22.shared", f"{name}:{mine[k]}", where, f"the {cls.name} made by {name} shares its '{other[k].lstrip('.') or 'self'}' with the '{mine[k].lstrip('.') or 'self'}' of the original: changing one changes the other (state '{stage}')")
    fields = {}
    for m in c.mem:
        for a, x in s2.heap[m].fields.items():
            fields.setdefault(a, set()).update(olabels(_deepdeps(I, x, s2)))
    for m in v.mem:
        for a, x in s.heap[m].fields.items():
            if a.startswith("_"):
                continue
            R.count("attributes_compared")
            if a not in fields or olabels(_deepdeps(I, x, s)) - fields[a]:
                R.add("C22.lost", f"{name}:{a}", where, f"the attribute '{a}' of the {cls.name} made by {name} does not come from the original's (state '{stage}')")
    A, B = ask(w, v, s, cls), ask(w, c, s2, cls)
    for q, (fi, la, ea) in A.items():
        if la is None:
            continue
        R.count("queries_compared")
        _, lb, eb = B[q]
        if lb is None:
            R.add("C22.query", f"{name}:{q}", where, f"{cls.name}.{q} works on the original and fails on the object made by {name} (state '{stage}')")
            continue
        miss = {x for x in la - lb if tuple(x[2:].rsplit(".", 1)) not in IDENTITY}
        if miss:
            R.add("C22.query", f"{name}:{q}", where, f"{cls.name}.{q} of the object made by {name} does not depend on {', '.join(sorted(x[2:] for x in miss))} of the original, unlike the original's answer (state '{stage}')")
        if eb - ea:
            R.add("C22.query", f"{name}:{q}", where, f"{cls.name}.{q} of the object made by {name} can raise {', '.join(sorted(eb - ea))}, the original's cannot (state '{stage}')")


def copy_part(p, R, dim, cname, stage):
    w = World(p, dim)
    w.I.fulldeps = True
    w.exact = True
    cls = p.cls(cname)
    v, s = w.receiver(cname, stage)
    label(w, v, s)
    hows = [n for n in ("copy", "__copy__", "__deepcopy__") if isinstance(cls.lookup(n), FunctionInfo)] + ["pickle", "deepcopy"]
    for how in hows:
        R.count("copies")
        if how in ("pickle", "deepcopy"):
            st = s.copy()
            out = w.run(lambda q: deep_copy(w.I, v, q, w.node(), pickling=how == "pickle"), st)
            fi = next((f for f in map(cls.lookup, ("__deepcopy__", "__reduce__", "__reduce_ex__", "__getstate__", "__setstate__")) if isinstance(f, FunctionInfo)), None)
            where = f"{fi.module.path}:{fi.node.lineno} in {fi.qualname}" if fi else f"class {cls.name}"
        else:
            fi = cls.lookup(how)
            st = s.copy()
            args = [] if how != "__deepcopy__" else [V(frozenset(["any"]))]
            out = w.call(fi, args, {}, st, selfv=v)
            where = f"{fi.module.path}:{fi.node.lineno} in {fi.qualname}"
        if not out.ok:
            R.add("C22.fails", f"{cls.name}.{how}", where, f"{cls.name}.{how} never returns in state '{stage}'")
            continue
        compare(R, w, how, cls, stage, v, s, out.value, out.st, where)
    R.absorb(w)


# what defines a lattice: key of todict() -> argument it was configured with, states in which it is there
DEFINES = {
    "vectors": ("P:self.basis", None), "positions": ("P:self.add_atom.pos", ("atoms", "connected", "analyzed", "built", "periodic")),
    "atoms": ("P:self.add_atom.atom", ("atoms", "connected", "analyzed", "built", "periodic")),
    "connections": ("P:self.add_connections.num_distances", ("connected", "analyzed", "built", "periodic")),
    "shape": ("P:self.build.shape", ("built", "periodic")),
}


def entries_of(w, v, st):
    """{key: value} of a dictionary, None if its keys are not known."""
    out = {}
    for m in v.mem:
        o = st.heap.get(m)
        if o is None or o.kind != "dict" or o.open or o.summary:
            return None
        for k, x in o.fields.items():
            out[k] = out[k] | _deepdeps(w.I, x, st) if k in out else _deepdeps(w.I, x, st)
    return out if v.mem else None


def dict_part(p, R, dim, cname, stage):
    w = World(p, dim)
    w.I.fulldeps = True
    w.exact = True
    cls = p.cls(cname)
    v, s = w.receiver(cname, stage)
    for m in w.I.reach(v, s):
        o = s.heap[m]
        if o.kind == "inst" and getattr(o.cls, "name", "") == "Atom":
            o = o.clone()
            o.fields.update({a: o.fields[a].dep(frozenset([f"O:Atom.{a}"])) for a in PRIMARY["Atom"] if a in o.fields})
            s.heap[m] = o
    for m in v.mem:
        o = s.heap[m]
        if "primitive" in o.fields:
            o = o.clone()
            o.fields = dict(o.fields, primitive=V(frozenset(["bool"]), deps=frozenset(["P:self.build.primitive"])))
            s.heap[m] = o
    want = {k: l for k, (l, sts) in DEFINES.items() if (sts is None or stage in sts) and (k != "shape" or cname == "Lattice")}

    def loc(n):
        fi = cls.lookup(n)
        return f"{fi.module.path}:{fi.node.lineno} in {fi.qualname}"

    out = w.method(v, "todict", (), {}, s.copy())
    if not out.ok:
        R.add("C22.fails", f"{cname}.todict", loc("todict"), f"{cname}.todict never returns in state '{stage}'")
        return
    d = entries_of(w, out.value, out.st)
    if d is not None:
        for k, l in want.items():
            R.count("dictionary_entries")
            raw = [out.st.heap[m].fields[k] for m in out.value.mem if k in out.st.heap[m].fields]
            mine = [s.heap[m].fields["shape"] for m in v.mem if "shape" in s.heap[m].fields] if k == "shape" else ()
            if k not in d or l not in d[k] or any("none" in x.prim for x in raw) and not any("none" in x.prim for x in mine):
                R.add("C22.todict", f"{cname}.todict:{k}", loc("todict"), f"todict() of a {cname} in state '{stage}' does not carry the {k} of the lattice")
    if stage in ("analyzed", "built", "periodic"):
        f = cls.lookup("fromdict")
        # every entry of the connections, not a summary of them
        for m in out.value.mem:
            x = out.st.heap[m].fields.get("connections")
            if x is not None:
                o = out.st.heap[m].clone()
                o.fields = dict(o.fields, connections=x.dep(frozenset(["X:entries"])))
                out.st.heap[m] = o
        w.I.hooks["post"] = _summaries
        w.I.hooks["reduced"] = lambda n: frozenset(["X:entries"]) if n.split(".")[-1] in REDUCE else frozenset()
        r = w.call(f, [out.value], {}, out.st, selfv=V(fn=(("class", cls),)))
        del w.I.hooks["post"], w.I.hooks["reduced"]
        if not r.ok:
            R.add("C22.fails", f"{cname}.fromdict", loc("fromdict"), f"{cname}.fromdict never returns for the dictionary of a lattice in state '{stage}'")
        else:
            if any(r.st.heap[m].cls is not cls for m in r.value.mem):
                R.add("C22.type", f"{cname}.fromdict", loc("fromdict"), f"{cname}.fromdict returns an object of another class")
            if set(w.I.reach(r.value, r.st)) & {m for m in w.I.reach(v, r.st) if getattr(r.st.heap[m].cls, "name", "") != "Atom" and not _inatom(w, v, r.st, m)}:
                R.add("C22.shared", f"{cname}.fromdict", loc("fromdict"), f"the {cname} made by fromdict(todict()) shares arrays with the original")
            o2 = w.method(r.value, "todict", (), {}, r.st)
            d2 = entries_of(w, o2.value, o2.st) if o2.ok else None
            if d2 is not None:
                atoms = [o2.st.heap[m] for q in o2.value.mem for m in w.I.reach(o2.st.heap[q].fields.get("atoms", V()), o2.st) if getattr(o2.st.heap[m].cls, "name", "") == "Atom"]
                for a in PRIMARY["Atom"]:
                    xs = [x.fields[a] for x in atoms if a in x.fields]
                    if xs and not any(f"O:Atom.{a}" in _deepdeps(w.I, x, o2.st) for x in xs):
                        R.add("C22.fromdict", f"{cname}.fromdict:atoms", loc("fromdict"), f"the atoms of a {cname} restored by fromdict() lack the '{a.lstrip('_')}' of those in the dictionary (state '{stage}')")
                for k, l in want.items():
                    if k == "shape":
                        continue
                    R.count("round_trip_entries")
                    if k not in d2 or l not in d2[k] or k == "connections" and "X:entries" not in d2[k]:
                        R.add("C22.fromdict", f"{cname}.fromdict:{k}", loc("fromdict"), f"the {k} are lost on the way through todict() and {cname}.fromdict() (state '{stage}')")
            for q in ("get_neighbors", "num_neighbors"):
                fi = cls.lookup(q)
                st = r.st.copy()
                args, kw = ([], {}) if fi.kind == "property" else w.arguments(st, fi, cls)
                a = w.call(fi, args, kw, st, selfv=r.value)
                R.count("round_trip_entries")
                if not a.ok or want["connections"] not in _deepdeps(w.I, a.value, a.st):
                    R.add("C22.fromdict", f"{cname}.fromdict:{q}", loc("fromdict"), f"{q} of the {cname} restored by fromdict() does not reflect the restored connections (state '{stage}')")
    for q in ("dumps", "__hash__"):
        a = w.method(v, q, (), {}, s.copy())
        if not a.ok:
            R.add("C22.fails", f"{cname}.{q}", loc(q), f"{cname}.{q} never returns in state '{stage}'")
            continue
        got = _deepdeps(w.I, a.value, a.st)
        for k, l in want.items():
            R.count("identity_obligations")
            if l not in got:
                R.add("C22.identity", f"{cname}.{q}:{k}", loc(q), f"{cname}.{q} does not depend on the {k} of the lattice: different lattices look the same (state '{stage}')")
    st = s.copy()
    other = w.foreign_lattice(st, "other", "built" if cname == "Lattice" else "analyzed")
    a = w.method(v, "__eq__", [other], {}, st)
    if a.ok:
        got = _deepdeps(w.I, a.value, a.st)
        for k, l in list(want.items()) + [("other", "P:other")]:
            R.count("identity_obligations")
            if l not in got:
                R.add("C22.identity", f"{cname}.__eq__:{k}", loc("__eq__"), f"comparing two lattices ignores {'the ' + k if k != 'other' else 'the other lattice'} (state '{stage}')")
    # files
    seen = []

    def ext(I, name, args, kw, st, node):
        if name in ("pickle.dump", "pickle.dumps") and args:
            seen.append((args[0], st))
        return None
    st = s.copy()
    fi = cls.lookup("dump")
    old = w.I.hooks.get("ext")
    w.I.hooks["ext"] = ext
    try:
        args, kw = w.arguments(st, fi, cls)
        w.call(fi, args, kw, st, selfv=v)
    finally:
        if old is None:
            del w.I.hooks["ext"]
        else:
            w.I.hooks["ext"] = old
    R.count("files")
    if seen and not any(_deepdeps(w.I, x, q) >= set(want.values()) and any(q.heap[m].cls is cls for m in x.mem) for x, q in seen):
        R.add("C22.file", f"{cname}.dump", loc("dump"), f"{cname}.dump does not write the whole lattice (state '{stage}')")
    R.absorb(w)


REDUCE = {"max", "min", "amax", "amin", "sum", "mean", "median", "any", "all", "prod", "len", "size", "shape", "count_nonzero", "nanmax", "nanmin"}


def _summaries(I, kind, v, a, k):
    """The result of a reduction does not carry the entries it was made of."""
    if isinstance(a[0] if a else None, str) and a[0].split(".")[-1] in REDUCE and "X:entries" in v.deps:
        v = v.clone(deps=v.deps - {"X:entries"})
    return v


def _inatom(w, v, st, m):
    for k in w.I.reach(v, st):
        if getattr(st.heap[k].cls, "name", "") == "Atom" and m in w.I.reach(V(mem=frozenset([k])), st):
            return True
    return False


def load_part(p, R, dim, cname, stage):
    """load() hands out what the file contains."""
    w = World(p, dim)
    cls = p.cls(cname)
    fi = cls.lookup("load")
    st = w.receiver(cname, "new")[1]
    mark = frozenset(["FILE"])

    def ext(I, name, args, kw, st, node):
        if name in ("pickle.load", "pickle.loads"):
            return V(frozenset(["any"]), deps=mark, f={"vn": ("file",)})
        return None
    w.I.hooks["ext"] = ext
    args, kw = w.arguments(st, fi, cls)
    out = w.call(fi, args, kw, st, selfv=V(fn=(("class", cls),)))
    R.count("files")
    if out.ok and "FILE" not in _deepdeps(w.I, out.value, out.st):
        R.add("C22.file", f"{cname}.load", f"{fi.module.path}:{fi.node.lineno} in {fi.qualname}", f"{cname}.load does not return what the file contains")
    R.absorb(w)


def part(p, R, kind, *a):
    {"copy": copy_part, "dict": dict_part, "load": load_part}[kind](p, R, *a)


def c22(p, tier):
    """Copies, pickles and dictionaries carry everything: the copy answers each query from its own copies of what the original answers from, and shares nothing with it."""
    dims = (1, 2, 3, 4) if tier == "thorough" else (1, 2, 3)
    jobs = [("copy", d, c, s) for d in dims for c, ss in COPIED.items() for s in ss]
    jobs += [("dict", d, c, s) for d in dims for c in ("LatticeStructure", "Lattice") for s in COPIED[c]]
    jobs += [("load", dims[0], c, "new") for c in ("LatticeStructure", "Lattice")]
    R, _ = parallel(p, part, jobs)
    return R
