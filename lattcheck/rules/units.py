"""Quantity rules: C15 coordinate frames, C16 length scaling."""
import itertools
import re

from ..core import Result, entries, parallel
from ..loader import FunctionInfo
from ..models import axes, num
from ..scenario import World
from ..values import V

STG = {
    "LatticeBasis": ["new"], "LatticeStructure": ["analyzed"], "Lattice": ["built", "periodic"], "LatticeData": ["periodic"],
    "DataMap": ["new"], "WignerSeitzCell": ["new"], "DispersionPath": ["points"], "Atom": ["new"],
    "Shape": ["new"], "Circle": ["new"], "Donut": ["new"], "ConvexHull": ["new"], "KDTree": ["new"],
}
ORDER = ["Lattice", "LatticeStructure", "LatticeBasis", "LatticeData", "Shape", "Circle", "Donut", "ConvexHull", "WignerSeitzCell", "KDTree", "DispersionPath", "DataMap"]


# documented meaning of results: (power of the length unit, meaning of the last axis)
RESULT = {
    "transform": (1, "W"), "itransform": (0, "L"), "translate": (1, "W"), "itranslate": [(0, "L"), (1, "W")],
    "vectors": (1, "W"), "norms": (1, "L"), "cell_size": (1, "W"), "cell_volume": ("D", None), "reciprocal_vectors": (-1, None), "volume": ("D", None),
    "get_neighbor_cells": (0, "L"), "get_position": (1, "W"), "get_positions": (1, "W"), "estimate_index": (0, "L"), "get_neighbors": (0, None),
    "get_neighbor_positions": (1, "W"), "get_neighbor_vectors": (1, "W"), "fourier_weights": (0, None), "build_translation_vectors": (0, "L"),
    "build_indices": [(0, "LI"), (1, "W")], "positions": (1, "W"), "indices": (0, "LI"), "limits": (1, None), "center": (1, "W"), "center_of_gravity": (1, "W"),
    "relative_position": (1, "W"), "position": (1, "W"), "minimum_distances": (1, None), "compute_neighbors": [(0, None), (1, None)],
    "compute_connections": [(0, None), (1, None)], "neighbors": (0, None), "nearest_neighbors": (0, None), "get_limits": (1, "W"), "get_index_limits": (0, "LI"),
    "get_cell_limits": (0, "L"), "atom_positions": (1, "W"), "check_neighbors": (0, None), "alpha": (0, None), "superindex_from_pos": (0, None),
    "superindex_from_index": (0, None), "neighbor_pairs": [(0, None), (0, None)], "find_sites": (0, None), "find_outer_sites": (0, None), "vindices": (0, None),
}
RESULT_OF = {
    "Lattice.distances": (1, None), "LatticeStructure.distances": (1, None), "DispersionPath.distances": (-1, None), "DispersionPath.build": (-1, "W"),
    "DispersionPath.scales": (0, None), "DispersionPath.edges": (-1, "W"), "spatial.distance": (1, None), "spatial.distances": (1, None),
    "spatial.cell_size": (1, "W"), "spatial.cell_volume": ("D", None), "spatial.compute_vectors": (1, None), "KDTree.query": [(0, None), (1, None)],
    "WignerSeitzCell.size": (1, None), "WignerSeitzCell.query": [(1, None), (0, None)], "DataMap.indices": (0, None), "Lattice.limits": (1, "W"),
    "Circle.limits": (1, 2), "Donut.limits": (1, 2), "ConvexHull.limits": (1, 2), "Shape.limits": (1, 2),
}
# public attributes of the built data
ATTRS = {"indices": (0, "LI"), "positions": (1, "W"), "neighbors": (0, None), "distances": (0, None), "distvals": (1, None), "pnvecs": (0, "L"), "paxes": (0, None)}
LATT_ATTRS = {"shape": (1, "W"), "pos": (1, "W")}


def _conforms(w, v, st, want, dim):
    """What definitely contradicts the expected meaning: (kind, text)."""
    if v.isnone:
        return
    if isinstance(want, list):
        if v.elts is None or len(v.elts) != len(want):
            return
        for i, (x, t) in enumerate(zip(v.elts, want)):
            for m in _conforms(w, x, st, t, dim):
                yield m[0], f"element {i}: {m[1]}"
        return
    deg, lab = want
    deg = dim if deg == "D" else deg
    d = w.I.content(v, st).f.get("deg")
    if num(d) and d != deg:
        yield "deg", f"has length dimension {d} instead of dimension {deg}"
    ax = axes(w.I, w.I.norm(v, st), st)
    if lab is not None and ax and ax[-1] != lab and ax[-1] in ("W", "L", "LI"):
        yield "frame", f"is in {NAMES[ax[-1]]} coordinates instead of {NAMES.get(lab, lab)} coordinates"


NAMES = {"W": "world", "L": "lattice", "LI": "lattice index"}


def contract(w, e, dim):
    if not e.out.ok:
        return
    st = e.out.st
    want = RESULT_OF.get(e.name) or (RESULT.get(e.fi.name) if e.cls is None or e.cls.name.startswith("Lattice") else None)
    if want is not None and e.fi.kind != "classmethod":
        for m in _conforms(w, e.out.value, st, want, dim):
            yield m[0], f"result of {e.name} {m[1]}"
    root = e.recv
    if e.fi.kind == "classmethod" or e.cls is None:
        root = e.out.value
    if root is None:
        return
    for m in root.mem:
        o = st.heap.get(m)
        nm = getattr(o.cls, "name", "") if o is not None else ""
        if nm in ("LatticeBasis", "LatticeStructure", "Lattice"):
            for a in ("vectors", "atom_positions"):
                if isinstance(o.cls.lookup(a), FunctionInfo):
                    for bad in _conforms(w, w.I.getattr_(V(mem=frozenset([m])), a, st.copy(), w.node()), st, (1, "W"), dim):
                        yield bad[0], f"property {a} after {e.name} {bad[1]}"
        if nm == "Lattice":
            for a, t in LATT_ATTRS.items():
                if a in o.fields:
                    for bad in _conforms(w, o.fields[a], st, t, dim):
                        yield bad[0], f"attribute Lattice.{a} after {e.name} {bad[1]}"
            d = o.fields.get("data")
            ms = d.mem if d is not None else ()
        elif nm == "LatticeData":
            ms = [m]
        else:
            continue
        for k in ms:
            od = st.heap.get(k)
            for a, t in ATTRS.items():
                if od is not None and a in od.fields:
                    for bad in _conforms(w, od.fields[a], st, t, dim):
                        yield bad[0], f"attribute LatticeData.{a} after {e.name} {bad[1]}"


def has_unit(spec):
    """The default of such an argument is a value in units of the default lattice."""
    return spec[0] in ("num", "arr") and spec[2] not in (None, 0, "poly")


def variants(e, limit):
    """Choices of the arguments: every switch both ways, every alternative type, given or omitted.

    An abstract run joins the alternatives of an argument, which loses facts that hold
    for one of them only; enumerating the alternatives keeps them."""
    w, fi, cls = e.w, e.fi, e.cls
    if fi.kind == "property":
        return [{}]
    a = fi.node.args
    pos = [x for x in a.posonlyargs + a.args]
    if fi.kind in ("method", "classmethod", "setter"):
        pos = pos[1:]
    optional = {x.arg for x in pos[len(pos) - len(a.defaults):]} if a.defaults else set()
    nodef = {x.arg: d for x, d in zip(pos[len(pos) - len(a.defaults):], a.defaults)} if a.defaults else {}
    optional |= {x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
    fixed, axes = {}, []
    for x in pos + list(a.kwonlyargs):
        nm = x.arg
        spec = w.spec_for(fi, cls, nm)
        if spec is None:
            if nm in optional:
                fixed[nm] = "omit"
            continue
        d = nodef.get(nm)
        unit_default = nm in optional and has_unit(spec) and getattr(d, "value", 0) is not None
        alts = list(spec[1]) if spec[0] == "alt" else [("const", True), ("const", False)] if spec[0] == "bool" else [spec]
        if nm in optional and not unit_default:
            alts.append("omit")
        if len(alts) > 1:
            axes.append((nm, alts))
        else:
            fixed[nm] = alts[0]
    n = 1
    for _, alts in axes:
        n *= len(alts)
    names = [nm for nm, _ in axes]
    if n <= limit:
        combos = [dict(zip(names, c)) for c in itertools.product(*[alts for _, alts in axes])]
    else:
        # every pair of alternatives of two arguments, the others omitted
        base = {nm: alts[-1] for nm, alts in axes}
        combos = []
        for (n1, a1), (n2, a2) in itertools.combinations(axes, 2):
            for x, y in itertools.product(a1, a2):
                c = dict(base)
                c[n1], c[n2] = x, y
                if c not in combos:
                    combos.append(c)
    return [w.couple(fi, dict(fixed, **c)) for c in combos]


def todo(w):
    seen = set()
    for e in entries(w, receivers=ORDER, stages=STG):
        nm = e.fi.name
        if nm.startswith(("plot", "draw", "subplot")) or e.name.startswith("plotting."):
            continue
        key = (e.fi, e.stage) if e.fi.name != "__init__" else (e.fi, e.cls)
        if e.fi.kind in ("property",) and e.stage == "periodic" and e.cls.name == "Lattice":
            continue
        if key in seen:
            continue
        if e.cls is not None and e.fi.kind not in ("classmethod",) and nm != "__init__" and any(k[0] is e.fi and k[1] != e.stage for k in seen) and e.cls.name != "Lattice":
            continue
        seen.add(key)
        yield e


def public_anchor(chain):
    """Innermost public function on a call chain: survives the extraction of helpers."""
    for q in reversed(chain.split(" -> ")):
        if not q.rsplit(".", 1)[-1].startswith("_") or q.endswith("__"):
            return q
    return chain.split(" -> ")[-1]


def _job(p, R, dim, limit, part, parts):
    w = World(p, dim)
    w.exact = True
    got = []
    for i, e0 in enumerate(todo(w)):
        if i % parts != part:
            continue
        R.count("entry_points")
        for choose in variants(e0, limit):
            e = type(e0)(w, e0.cls, e0.fi, e0.stage)
            e.prepare(choose)
            w.I.reports.clear()
            e.run()
            R.count("argument_variants")
            for kind, msg in contract(w, e, dim):
                got.append((e.name, dim, dict(rule=kind, where=f"{e.fi.module.path}:{e.fi.node.lineno} in {e.fi.qualname}", msg=msg, chain=e.fi.qualname, func=e.fi.qualname,
                                              primitive=w.option(e.fi, choose, "primitive") or w.option(e.fi, choose, "relative"))))
            R.count("results_checked")
            for r in w.I.reports.values():
                got.append((e.name, dim, dict(r, primitive=w.option(e.fi, choose, "primitive") or w.option(e.fi, choose, "relative"))))
    R.absorb(w)
    return got


def survey(p, tier):
    dims = (1, 2, 3, 4) if tier == "thorough" else (1, 2, 3)
    limit = 96 if tier == "thorough" else 12
    R, extras = parallel(p, _job, [(d, limit, i, 4) for d in dims for i in range(4)])
    return R, [x for e in extras for x in e]


def _report(R, got, kind, rule, detail):
    """Findings keyed by the innermost public function, the kind of combination and
    whether it needs the primitive/relative option; helpers and line numbers do not matter."""
    groups = {}
    for name, dim, r in got:
        if r["rule"] == kind:
            k = f"{public_anchor(r['chain'])}:{detail(r['msg'])}"
            groups.setdefault(k, []).append((name, dim, r))
    for k, rs in groups.items():
        if all(r["primitive"] for _, _, r in rs):
            k += ":primitive"
            name, dim, r = rs[0]
        else:
            name, dim, r = next(x for x in rs if not x[2]["primitive"])
        R.add(rule, k, r["where"], f"{r['msg']} (reached from {name}, D={dim})", r["chain"])


def c15(p, tier):
    """World-coordinate and lattice-coordinate axes are never added, compared or contracted with each other."""
    R, got = survey(p, tier)
    _report(R, got, "frame", "C15.frame", lambda m: "result" if "instead of" in m else "contracted" if "contracts" in m or "solve" in m else "aligned")
    return R


def c16(p, tier):
    """Quantities of different length dimension are never added, compared or stored together."""
    R, got = survey(p, tier)
    _report(R, got, "deg", "C16.degree", lambda m: "~".join(sorted(re.findall(r"dimension (-?[\d/.]+)", m))))
    return R
