"""C17: positions and displacements are never confused."""
from ..affine import WEIGHTS, Affine, isnum
from ..core import parallel
from ..scenario import World
from .units import public_anchor, todo, variants

# documented meaning of results: 1 a position, 0 independent of where the lattice is
RESULT = {
    "get_position": 1, "get_positions": 1, "position": 1, "positions": 1, "atom_positions": 1, "center": 1, "center_of_gravity": 1, "relative_position": 1, "limits": 1, "get_limits": 1,
    "translate": 1, "transform": 1, "itransform": 1, "itranslate": [None, 1], "get_neighbor_positions": 1, "get_neighbor_vectors": 0, "vectors": 0, "norms": 0, "cell_size": 0, "cell_volume": 0, "volume": 0,
    "distances": 0, "minimum_distances": 0, "compute_neighbors": [None, 0], "compute_connections": [None, 0], "build_indices": [None, 1], "reciprocal_vectors": 0, "shape": 0, "pos": 1,
    "periodic_translation_vectors": {"each": [None, ("i", 0)]},
}
RESULT_OF = {
    "spatial.distance": 0, "spatial.distances": 0, "Shape.limits": 1, "Circle.limits": 1, "Donut.limits": 1, "ConvexHull.limits": 1, "DispersionPath.build": 1, "DispersionPath.edges": 1,
    "DispersionPath.distances": 0, "DispersionPath.scales": 0, "spatial.cell_size": 0, "spatial.cell_volume": 0, "spatial.compute_vectors": 0, "KDTree.query": [0, None],
}


def contradicts(A, v, st, want):
    if isinstance(want, dict):
        for m in v.mem:
            o = st.heap.get(m)
            for x in (o.elts or ()) + ((o.elem,) if o.elem is not None else ()) if o is not None and o.kind == "list" else ():
                r = contradicts(A, x, st, want["each"])
                if r:
                    return r
        return None
    if isinstance(want, list):
        if v.elts is not None and len(v.elts) == len(want):
            for x, t in zip(v.elts, want):
                r = contradicts(A, x, st, t)
                if r:
                    return r
        return None
    if want is None or v.isnone:
        return None
    w = A.w(v, st)
    if w == "mixed":
        return f"mixes positions and displacements instead of being {A.name(want)}"
    if w == "frac":
        return f"moves by a fraction of the translation instead of being {A.name(want)}"
    if isinstance(want, tuple):
        return f"is the translation vector of {A.name(w[1])} instead of {A.name(want[1])}" if isinstance(w, tuple) and w != want else None
    if isnum(w) and w != want:
        return f"is {A.name(w)} instead of {A.name(want)}"
    return None


def c17_part(p, R, dim, limit, part, parts):
    w = World(p, dim)
    w.exact = True
    w.weights = WEIGHTS
    A = Affine(w.I)
    got = []
    for i, e0 in enumerate(todo(w)):
        if i % parts != part:
            continue
        R.count("entry_points")
        for choose in variants(e0, limit):
            e = type(e0)(w, e0.cls, e0.fi, e0.stage)
            # the points of a Wigner-Seitz cell are given relative to the center of the cell
            w.weights = {} if e.cls is not None and e.cls.name == "WignerSeitzCell" else WEIGHTS
            e.prepare(choose)
            w.I.reports.clear()
            e.run()
            R.count("argument_variants")
            for r in w.I.reports.values():
                if r["rule"] == "affine":
                    got.append((e.name, dim, r["where"], r["msg"], r["chain"]))
            if not e.out.ok:
                continue
            want = RESULT_OF.get(e.name)
            if want is None and e.cls is not None and e.cls.name.startswith("Lattice"):
                want = RESULT.get(e.fi.name)
            if want is not None and e.fi.kind != "classmethod":
                R.count("results_checked")
                bad = contradicts(A, e.out.value, e.out.st, want)
                if bad:
                    got.append((e.name, dim, f"{e.fi.module.path}:{e.fi.node.lineno} in {e.fi.qualname}", f"result of {e.name} {bad}", e.fi.qualname))
    R.count("weights_inferred", A.count)
    R.absorb(w)
    return got


def extension(p, R, dim):
    """The section that extend() builds lies where the lattice is."""
    from ..core import Entry
    for stage in ("built", "periodic"):
        w = World(p, dim)
        w.I.fulldeps = True
        w.exact = True
        cls = p.cls("Lattice")
        fi = cls.lookup("extend")
        e = Entry(w, cls, fi, stage).prepare()
        for m in e.recv.mem:
            o = e.st.heap[m].clone()
            o.fields = dict(o.fields)
            if "pos" in o.fields:
                o.fields["pos"] = o.fields["pos"].dep(frozenset(["X:place"]))
            e.st.heap[m] = o
            for k in o.fields["data"].mem if "data" in o.fields else ():
                d = e.st.heap[k].clone()
                d.fields = dict(d.fields)
                d.fields["positions"] = d.fields["positions"].dep(frozenset(["X:place"]))
                e.st.heap[k] = d
        seen = []

        def param(I, f, nm, v, st):
            if f.cls is not None and f.cls.name == "LatticeData" and f.name == "append" and nm in ("args", "positions"):
                x = v
                if nm == "args":
                    xs = v.elts if v.elts is not None else next((st.heap[m].elts for m in v.mem if st.heap[m].elts), None)
                    x = xs[1] if xs is not None and len(xs) == 4 else None
                if x is not None:
                    seen.append(x.deps | I.content(x, st).deps)
            return v
        w.I.hooks["param"] = param
        e.run()
        R.count("sections_checked", len(seen))
        for deps in seen:
            if "X:place" not in deps:
                R.add("C17.place", "Lattice.extend", f"{fi.module.path}:{fi.node.lineno} in {fi.qualname}",
                      f"the section that Lattice.extend() appends does not depend on the position of the lattice (state '{stage}', D={dim})")
        R.absorb(w)


def c17(p, tier):
    """Positions and displacements are combined only in ways that commute with a translation of everything."""
    dims = (1, 2, 3, 4) if tier == "thorough" else (1, 2, 3)
    limit = 96 if tier == "thorough" else 12
    R, extras = parallel(p, c17_part, [(d, limit, i, 8) for d in dims for i in range(8)])
    for got in extras:
        for name, dim, where, msg, chain in got:
            kind = "result" if "instead of" in msg else "norm" if "from the origin" in msg else "part" if "stays where" in msg or "row of zeros" in msg else "store" if "is set to" in msg else "compared"
            R.add("C17.affine", f"{public_anchor(chain)}:{kind}", where, f"{msg} (reached from {name}, D={dim})", chain)
    extension(p, R, 2)
    return R
