"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PKG = ["lattpy/basis.py", "lattpy/structure.py", "lattpy/lattice.py", "lattpy/data.py", "lattpy/shape.py", "lattpy/spatial.py", "lattpy/disptools.py", "lattpy/atom.py", "lattpy/utils.py"]
CORE = PKG[:4]


def P(id, title, statement, over, text, why, files, mech, state=(), observe=(), tech=None, na=None, note=""):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, state=state, observe=observe, tech=tech, na=na, note=note)


AI = "static analysis: flow-sensitive inlining abstract interpretation of the package's syntax trees; "
PROPS = [
    P("C01", "Arguments handed to the library are never modified",
      "No public function, method or constructor changes the contents of an array, list, dict, lattice or data object that the caller passes in as an argument, nor of a shared default value. This holds whatever the argument's type, shape, dtype and size, on every path through the call.",
      ["inputs", "histories"], "every public callable, every argument object, every state of the receiver",
      "The tests compare results, almost never the arguments afterwards; in-place updates that touch a caller's array only for one dtype, one option or one branch are invisible to them.",
      PKG, [("copy before in-place update", "LatticeData.append, LatticeStructure.check_points, Lattice._append, Lattice.append"), ("fresh results from transform/translate", "LatticeBasis")],
      observe=["argument objects after the call"],
      tech=AI + "heap effect analysis: every in-place store site reachable from a public entry point is checked against the objects reachable from the caller's arguments"),
    P("C02", "Read-only queries leave the queried object unchanged",
      "Calling any query (a property, a getter, an iterator, a computation that returns a result, printing, comparing, hashing, copying or serialising) leaves the observable state of the object it is called on exactly as it was, in every life-cycle state of the object. Only a private cache may be filled in.",
      ["inputs", "histories"], "every query method, every argument, every life-cycle state of the receiver (empty, configured, analysed, built, periodic)",
      "A test calls a query once and looks at the return value; damage done to the receiver shows only in a later, different call.",
      PKG, [("masks and fancy indexing create fresh arrays", "LatticeData.neighbor_mask/get_neighbors/site_mask"), ("explicit copies", "LatticeStructure.get_neighbors, WignerSeitzCell.symmetry_points")],
      observe=["attributes of the receiver before and after the call"],
      tech=AI + "purity analysis of every query method on abstract receivers of each life-cycle state"),
    P("C03", "Lattices and shapes own the configuration they are given",
      "Whatever array, list or dict is passed to a constructor or configuring call (basis vectors, atom positions, connections, shape sizes and positions, periodic axes, k-points), later changes the caller makes to that object do not reach the lattice, shape or path that was configured with it. Atom objects are the exception: they are shared by reference.",
      ["inputs", "histories"], "every constructor, class method and configuring method, every caller object, every receiver state",
      "The tests never modify an input after handing it over.",
      ["lattpy/basis.py", "lattpy/structure.py", "lattpy/lattice.py", "lattpy/shape.py", "lattpy/disptools.py"],
      [("copy on capture", "LatticeBasis.__init__, LatticeStructure.add_atom/fromdict, Lattice.set_periodic, ConvexHull.__init__, DispersionPath.add")],
      observe=["attributes of the object after the caller changes its input"],
      tech=AI + "alias (ownership) analysis: no mutable object reachable from an argument may be reachable from the configured object at exit"),
    P("C04", "Results of query methods are independent of internal storage",
      "An array, list or dict returned by a query method can be modified by the caller without changing the object it was obtained from or what later calls return, in every life-cycle state. Attributes and properties, atoms, data maps and search trees are handed out as they are.",
      ["inputs", "histories"], "every public non-property query method, every argument, every receiver state, any later modification of the result",
      "The tests never write to a returned object and query again.",
      CORE + ["lattpy/disptools.py", "lattpy/spatial.py", "lattpy/shape.py"],
      [("copies of stored arrays", "LatticeStructure.get_position/get_neighbors/todict/get_base_atom_dict, Lattice.position, DispersionPath.edges/get_ticks")],
      observe=["the object after the caller changed a result"],
      tech=AI + "alias (escape) analysis: no mutable heap object reachable from the result may also be reachable from the receiver"),
    P("C05", "Cached results never outlive the data they were computed from",
      "After any operation that changes a lattice, its data or a path, every query answers for the new state, however often and in whichever order queries were made before the change. Nothing computed earlier, for other arguments or for another object is returned.",
      ["histories"], "every interleaving of queries and changes: build, set_periodic, append, extend, repeat, sort, remove, add_neighbors, add_atom, add_connection(s)",
      "It takes a query, a change and the same query again; the tests query once per fixture.",
      ["lattpy/data.py", "lattpy/lattice.py", "lattpy/structure.py"],
      [("cache reset", "LatticeData.set/reset/remove/sort/sort_neighbors/set_periodic/remove_periodic/add_neighbors")],
      state=[("cached data map", "DataMap built from the neighbor data", "LatticeData.map")],
      observe=["LatticeData.map", "Lattice.dmap"],
      tech=AI + "typestate analysis of discovered cache fields: a store to a source field of a filled cache must be followed by a reset on every path to a normal exit; key-completeness of memo tables"),
    P("C06", "Per-site and per-neighbor arrays stay parallel",
      "After every operation (building, filtering dangling sites, periodic boundaries, sorting sites or neighbors, removing, appending, extending, repeating, adding neighbors) row i of every per-site array (indices, positions, neighbors, distances, periodic axes, translation vectors and mask) describes the same site, column j of every per-neighbor array the same neighbor, and the site numbers stored as neighbors follow the sites that moved or were removed. Results returned together (neighbor pairs and their distance indices, the data map, the periodic neighbors of each site) are parallel in the same way.",
      ["inputs", "histories"], "every reordering, selection, removal, extension and concatenation of the data, for every option, number of sites, number of neighbors and path",
      "A wrong pairing needs an order of sites, a second distance or a removed site for which the two orders differ; on the small square lattices of the tests all slots hold equal values.",
      ["lattpy/data.py", "lattpy/lattice.py", "lattpy/structure.py", "lattpy/spatial.py"],
      [("one selection for all arrays", "LatticeData.remove/sort/sort_neighbors/append, _filter_dangling, LatticeBasis/LatticeStructure.build_indices"), ("translation of neighbor numbers", "LatticeData.remove/sort/append, _filter_dangling"), ("parallel lists of periodic neighbors", "Lattice._compute_pneighbors/_compute_connection_neighbors"), ("parallel results", "LatticeData.map, DataMap, Lattice.neighbor_pairs")],
      observe=["LatticeData arrays", "Lattice.neighbor_pairs", "Lattice.dmap"],
      tech=AI + "symbolic selection histories: every array carries the sequence of selections, permutations, removals and joins applied to its rows and columns, and the histories of arrays stored or returned together must agree"),
    P("C10", "Derived attributes always describe the current sites and neighbors",
      "After every operation on a built lattice (build, append, extend, repeat, set_periodic, removing, sorting or adding neighbors) the attributes derived from the data describe the data as it is now: shape and origin are the extent of the current sites, periodic_axes is what is applied, the invalid markers and the distance table match the neighbor arrays, and the tables per atom follow the atoms of the cell.",
      ["histories"], "every sequence of data-changing operations, every option, every path through them",
      "Tests look at the attributes right after a build; an operation that forgets one leaves it stale only for particular histories.",
      ["lattpy/lattice.py", "lattpy/data.py", "lattpy/structure.py"],
      [("extent update", "Lattice._update_shape called by build/_append"), ("periodic bookkeeping", "Lattice.set_periodic/build/_append"), ("markers of unused slots", "LatticeData.set/reset/remove/add_neighbors"), ("per-atom tables", "LatticeStructure.add_atom")],
      state=[("extent", "size and origin of the current sites", "Lattice.shape, Lattice.pos"), ("unused-slot markers", "padding values of neighbors and distances", "LatticeData.invalid_idx, invalid_distidx")],
      observe=["Lattice.shape, pos, periodic_axes", "LatticeData.invalid_idx, invalid_distidx, distvals"],
      tech=AI + "must-update (typestate) analysis of source/derived attribute pairs: on every path of a mutator that stores the source the derived attribute is stored too, from a value that depends on the new source"),
    P("C11", "Calls in the wrong life-cycle state or dimension raise the documented error",
      "Using a lattice before it is ready raises the documented error and nothing else: NoAtomsError without atoms, NoConnectionsError without connections, NotAnalyzedError before the analysis, NotBuiltError before the build, SiteOccupiedError for a taken position; arguments whose length differs from the dimension of the lattice raise ValueError. In every other state and for arguments of the right dimension these errors are not raised.",
      ["histories", "inputs"], "every configuration history (add_atom, add_connection, add_connections, analyze, build in any order, with or without analysis), dimensions 1 to 4",
      "The tests raise each error from one state; the guards have to hold for every order of the configuration steps and must not reject lattices that are ready.",
      ["lattpy/structure.py", "lattpy/lattice.py", "lattpy/utils.py"],
      [("guards", "LatticeStructure._assert_atoms/_assert_connections/_assert_analyzed, Lattice._assert_*"), ("dimension tests", "LatticeStructure.add_atom/build_translation_vectors/check_points"), ("not-built guard", "Lattice.set_periodic")],
      observe=["type of the error raised"],
      tech=AI + "typestate analysis: all configuration histories up to length 4 (5 in thorough) are run abstractly and the error types on each path compared with the documented automaton"),
    P("C12", "A rejected call leaves the lattice as it was",
      "When a configuring, building or data-changing call raises a documented error (not analysed, wrong dimension, occupied position, no sites left, an unusable axis) or a callback of the user raises during it, the lattice still holds exactly the configuration and data it had before the call.",
      ["inputs", "histories", "crash_points"], "every raise site and user callback on every path of every mutating method, every receiver state",
      "The tests check that the error is raised and throw the lattice away.",
      ["lattpy/structure.py", "lattpy/lattice.py", "lattpy/data.py"],
      [("validate before storing", "LatticeStructure.add_atom/add_connection, Lattice.build, Lattice.set_periodic")],
      observe=["attributes of the lattice after the exception"],
      tech=AI + "effect-ordering analysis: no explicit raise or user callback is reachable after a store to the receiver within the same call"),
    P("C13", "Changed atoms or connections never meet answers of the old analysis",
      "After adding an atom or changing connections, with or without immediate analysis, no query answers from the analysis of the previous configuration: it either reports that the lattice is not analysed or answers for the new one, and a new analysis replaces every result of the old one.",
      ["histories"], "every sequence of analyses and configuration changes, every query that depends on the analysis",
      "It takes a configuration change after an analysis; the tests configure a lattice once.",
      ["lattpy/structure.py"],
      [("invalidation", "LatticeStructure.add_atom/add_connection/add_connections"), ("complete re-analysis", "LatticeStructure.analyze/_analyze_raw")],
      state=[("analysis results", "distances, neighbors and counts of the unit cell", "LatticeStructure._base_neighbors, _distances, _distance_matrix, _num_neighbors, _raw_*")],
      observe=["get_neighbors, distances, num_neighbors, build after a configuration change"],
      tech=AI + "staleness (dependence) analysis over configuration histories: answers after a change must carry the labels of the new configuration, and re-analysis must store every attribute the first one stored"),
    P("C15", "World coordinates and lattice coordinates are never mixed up",
      "A quantity indexed by world axes (positions, extents, limits) and one indexed by lattice vectors (translation vectors, vector norms) are never added, subtracted, compared, stored into each other or contracted with each other except through the basis matrix in the right orientation. Every result documented as a position is in world coordinates and every result documented as a translation vector is in lattice coordinates, for every basis (skew, rotated, vectors in any order) and dimension.",
      ["inputs"], "every basis, dimension, argument value and option combination of every public callable",
      "The tests use symmetric or nearly orthogonal basis matrices, for which the two frames and a matrix and its transpose coincide.",
      CORE + ["lattpy/shape.py", "lattpy/spatial.py"],
      [("basis matrix and its inverse", "LatticeBasis.transform/itransform/translate/itranslate"), ("periodic translation vectors", "Lattice._build_periodic_translation_vector"), ("shape containment", "Shape.contains, LatticeStructure.check_points")],
      observe=["positions, translation vectors and limits returned or stored"],
      tech=AI + "axis-label (coordinate frame) type system: every array axis carries world/lattice labels inferred from the basis, checked at each arithmetic, comparison, store and contraction site and against the documented frame of results"),
    P("C16", "Results scale with the unit of length",
      "Expressing the same lattice in another unit of length scales every length and position by the conversion factor and leaves indices, neighbor lists, counts and translation vectors unchanged: lengths are never added to, compared with or stored as pure numbers, areas or reciprocal lengths. Rounding decimals and small absolute tolerances (up to 1e-2) are exempt.",
      ["inputs"], "every lattice constant and every public callable, argument value and option combination",
      "The tests use lattice constant 1, for which a length and a pure number coincide.",
      PKG[:7],
      [("search radius relative to the configured distances", "LatticeStructure.compute_neighbors, Lattice.kdtree/_compute_pneighbors/_compute_connection_neighbors"), ("cell estimates", "LatticeStructure.build_translation_vectors"), ("reciprocal vectors", "LatticeBasis.reciprocal_vectors")],
      observe=["site counts, neighbor lists, positions, distances for rescaled lattices"],
      tech=AI + "dimension (length-degree) type system over all arithmetic, comparison and store sites, checked against the documented dimension of results"),
    P("C17", "Moving a lattice moves its sites and changes nothing else",
      "Where a lattice lies is immaterial: building it at another position, or moving all sites together, shifts positions, limits and centers by the same amount and leaves extents, distances, neighbor vectors, periodic translation vectors, membership in a moved shape and the number of sites alone. Positions and displacements are never confused: a position is never compared with a size, measured from the origin of the coordinates or stored as an extent, and a section appended to a lattice is placed relative to where that lattice is.",
      ["inputs", "configurations"], "every position of the lattice or shape, every public callable, argument value and option combination",
      "The tests build every lattice at the origin, where a position and a displacement have the same coordinates.",
      PKG[:7],
      [("extent and position of a lattice", "Lattice._update_shape, limits, relative_position, center"), ("cells searched for a section", "LatticeStructure.build_translation_vectors, check_points"), ("membership and limits of shapes", "Shape, Circle, Donut, ConvexHull"), ("neighbor and periodic vectors", "LatticeStructure.get_neighbor_vectors, Lattice.periodic_translation_vectors"), ("appended sections", "Lattice.extend")],
      observe=["positions, limits, shape, pos, distances, site counts of lattices built at different positions"],
      tech=AI + "affine type system: every value carries its weight under a common translation (1 position, 0 displacement), checked at comparisons, norms, partial stores and documented results; dependence of appended sections on the position of the lattice"),
    P("C20", "The number of parallel workers never changes a result",
      "Whatever number of parallel jobs is requested for a build, a neighbor search or an extension, the sites, neighbors, distances, periodic data, return values and errors are the same. Only the time needed may differ.",
      ["inputs", "configurations"], "every value of num_jobs, every public callable that accepts it, every combination of its other options and receiver state",
      "The tests leave num_jobs at one value per call and never compare two of them.",
      ["lattpy/spatial.py", "lattpy/structure.py", "lattpy/lattice.py"],
      [("worker count handed to the tree query only", "KDTree.query, LatticeStructure.compute_neighbors, Lattice.build/extend")],
      observe=["lattice data and return values for different num_jobs"],
      tech=AI + "information-flow (non-interference) analysis: no explicit or implicit flow from num_jobs to a result, stored attribute or raised error except through the workers argument of the tree query"),
    P("C21", "Every option of a public call takes effect in every combination",
      "Each argument of a public function, method or constructor influences what the call returns, stores, raises or calls back: no option is silently dropped on one branch, in combination with another option, when it is not forwarded to the code doing the work, or because its value is 0. Options documented to apply only together with another one (for example sort_reverse without sort_ax) are exempt there; drawing functions are not covered.",
      ["inputs"], "every argument at every kind of non-default value, in combination with every value of each other option, for every public callable and receiver state",
      "Tests exercise a handful of option combinations; a dropped option changes nothing in all the others.",
      PKG, [("option forwarding", "Lattice.build -> LatticeStructure.build_indices -> build_translation_vectors/check_points; Lattice.append/extend/repeat -> Lattice._append -> LatticeData.sort"), ("explicit None tests", "LatticeData.neighbor_mask, DataMap.onsite/hopping, KDTree.query, distance")],
      observe=["return value, receiver state and errors with and without the option"],
      tech=AI + "dependence (information-flow) analysis with pairwise enumeration of option contexts: the argument's label must reach a result, store, error or callback; 0 must not follow the path of an omitted option; required argument-to-attribute dependences"),
    P("C22", "Copies and restored lattices equal the original and are independent of it",
      "A copy (copy(), deepcopy, a pickle written by dump and read by load) of a lattice, its data, an atom, a shape or a path answers every query like the original in every life-cycle state, and neither object ever changes when the other is changed. todict() carries vectors, atoms, positions, connections and shape; fromdict() restores an analysed lattice from it; dumps(), hash and comparison take all of these into account.",
      ["histories", "inputs"], "every class that can be copied or stored, every attribute, every life-cycle state, every later change of either object",
      "The tests compare one or two attributes of a copy of a freshly built lattice and never change one of the two.",
      ["lattpy/structure.py", "lattpy/lattice.py", "lattpy/data.py", "lattpy/atom.py"],
      [("deep copies", "LatticeStructure.copy, Lattice.copy, LatticeData.copy, Atom.copy"), ("dictionary round trip", "LatticeStructure.todict/fromdict, Lattice.todict"), ("identity", "dumps, __hash__, __eq__")],
      observe=["queries of the copy, todict() of the restored lattice, hash and =="],
      tech=AI + "alias analysis between original and copy plus dependence analysis: every attribute is labelled before copying and each query of the copy must depend on the labels the original's answer depends on"),
    P("C23", "Results depend on the object and the arguments alone",
      "What a call returns, stores or raises is a function of the object it is called on and of its arguments. Lattices, shapes, paths and atoms never influence each other: no call changes class attributes, module variables, default values or settings of the process that other objects or later calls see. Nothing depends on random numbers, the clock, the environment, the hash seed, memory addresses or uninitialised memory, so that the same program gives the same lattice in every run and in every order. (The running number Atom.index and what prints it are excepted.)",
      ["histories", "inputs", "schedules"], "every public callable, every state of the receiver, every history of other objects in the process, every run",
      "Each test makes its own objects in one process, so influence between objects or from the environment shows only for particular orders or runs.",
      PKG, [("instance attributes only", "all constructors"), ("content hash", "LatticeStructure.__hash__, Lattice.__hash__"), ("complete initialisation of arrays", "spatial.interweave, LatticeData.set")],
      observe=["results of the same call after other objects were used, or in another process"],
      tech=AI + "effect analysis (no store to shared objects or process settings) and taint analysis (no flow from volatile sources or uninitialised arrays to results, attributes or errors)"),
    P("C30", 'Neighbor lists are complete and symmetric',
      'Two sites are listed as neighbors of each other exactly if their distance is one of the configured distances of their pair of atoms, and if i is a neighbor of j then j is one of i at the same distance.',
      ['inputs'], 'every lattice, set of atoms and connections, shape and periodic axes', 'The tests compare neighbor counts of a few lattices.',
      ['lattpy/structure.py', 'lattpy/lattice.py', 'lattpy/spatial.py'], [],
      na="which pairs of sites lie within the search radius is a question about real-number coordinates and scipy's tree search; no static argument over the source bounds them (C06 and C16 cover what the bookkeeping and the radius must satisfy)"),
    P("C31", 'Coordinate and super-index conversions are inverse to each other',
      'transform and itransform, translate and itranslate, get_cell_superindex and get_cell_index undo each other for every regular basis.',
      ['inputs'], 'every regular basis, index and position', 'The tests use a few vectors.',
      ['lattpy/basis.py'], [],
      na='an equality of real-number (matrix inverse) or integer (mixed radix) values; C15 decides the frames and contractions, the values themselves are beyond a dataflow abstraction'),
    P("C32", 'A finite lattice contains exactly the sites inside its shape',
      'build() keeps every site of the infinite lattice that lies inside the shape and none that lies outside.',
      ['inputs'], 'every basis, unit cell, shape, position and tolerance', 'The tests count the sites of a few lattices.',
      ['lattpy/structure.py', 'lattpy/shape.py'], [],
      na='requires bounding floor() of real-number transformations of the corners against the candidate grid; not decidable by an abstraction of the source (C17 decides that the candidates move with the shape)'),
    P("C33", 'Distances across periodic boundaries are minimum-image distances',
      'With periodic axes the distance between two sites is the smallest over all periodic images, and adding periodicity never lengthens it.',
      ['inputs'], 'every lattice, set of periodic axes and pair of sites', 'The tests check a few pairs.',
      ['lattpy/lattice.py'], [],
      na='a minimum over real-number distances of images; whether the enumerated images suffice depends on the shape of the cell'),
    P("C34", 'Reciprocal vectors, Wigner-Seitz cell and Brillouin zone belong to the lattice',
      'Reciprocal vectors satisfy a_i.b_j = 2 pi delta_ij, the Wigner-Seitz cell is the set of points closest to its center and has the volume of the unit cell.',
      ['inputs'], 'every regular basis', 'The tests compare tabulated lattices.',
      ['lattpy/basis.py', 'lattpy/spatial.py'], [],
      na="numeric identities over real matrices and qhull's output; C16 decides only their dimension"),
    P("C35", 'The data map and adjacency matrix represent the lattice completely',
      'Every site has one diagonal and every neighbor pair one off-diagonal entry in the data map, and matrices built from it are Hermitian for symmetric data.',
      ['inputs'], 'every lattice and operator data', 'The tests use small chains.',
      ['lattpy/data.py', 'lattpy/lattice.py'], [],
      na='multiplicity of entries depends on run-time contents of the neighbor arrays; C06 decides that rows, columns and distances are taken from the same slots'),
    P("C36", 'Prefabricated lattices have their textbook coordination',
      'The prefabricated lattices (square, honeycomb, hexagonal, fcc, bcc, ...) have the coordination numbers and cell volumes of the structures they are named after for every lattice constant.',
      ['inputs'], 'every lattice constant', 'The tests use the default lattice constant.',
      ['lattpy/__init__.py', 'lattpy/basis.py'], [],
      na='a statement about concrete coordinates; deciding it means evaluating the constructors, not analysing them'),
]

EXTRA_NA = []


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as fh:
        for p in PROPS:
            d = dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                     anchors=dict(files=list(p["files"]), mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                                  state=[dict(name=a, meaning=b, where=c) for a, b, c in p["state"]], observe_at=list(p["observe"]), hook_needed=None))
            assert len(p["title"]) <= 80, p["id"]
            fh.write(json.dumps(d) + "\n")
    m = dict(version=1, setup_cmd="python3 -m compileall -q lattcheck", checks=[], not_applicable=[])
    for p in PROPS:
        if p["na"]:
            m["not_applicable"].append(dict(property=p["id"], reason=p["na"]))
        else:
            m["checks"].append(dict(property=p["id"], quick_cmd=f"python3 -m lattcheck.main {p['id']} quick", thorough_cmd=f"python3 -m lattcheck.main {p['id']} thorough",
                                    technique=p["tech"], level="other",
                                    level_note=p["note"] or "Sound up to the modelled subset: decided for all inputs on an abstraction of the source; facts the analysis cannot establish are not reported.",
                                    evidence_file=f"evidence/{p['id']}.json"))
    with open(os.path.join(V, "MANIFEST.json"), "w") as fh:
        json.dump(m, fh, indent=1)
        fh.write("\n")


if __name__ == "__main__":
    main()
