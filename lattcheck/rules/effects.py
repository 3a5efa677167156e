"""Effect and aliasing rules: C01 arguments, C02 receivers, C03 capture, C04 results."""
import ast

from ..core import Entry, Result, entries, stable_path, variants
from ..scenario import LAT_STAGES, World
from ..values import EMPTY, NC

WRITES = ("write", "del")


def _dims(tier):
    return (1, 2, 3, 4) if tier == "thorough" else (1, 2, 3)


def _foreign(o):
    return False


def c01(p, tier):
    """No call modifies an object handed in by the caller (nor a default value)."""
    R = Result()
    for dim in _dims(tier):
        w = World(p, dim)
        for e, choose in ((e, c) for e in entries(w) for c in [None, *variants(e)]):
            e.prepare(choose)
            own = {}
            for nm, v in e.argvals():
                for oid, path in w.I.reach(v, e.st).items():
                    own.setdefault(oid, nm + path)
            e.run()
            R.count("entry_points")
            R.count("caller_objects_tracked", len(own))
            for ev in e.out.events:
                if ev.kind not in WRITES:
                    continue
                R.count("store_sites_examined")
                if ev.obj in own:
                    path = stable_path(own[ev.obj])
                    R.add("C01.argument-written", f"{ev.func.qualname}:{path.split('.')[0].split('[')[0]}", ev.where,
                          f"{e.name} modifies its argument '{path}' in place (store '{ev.field}')", ev.chain())
                elif isinstance(ev.obj, tuple) and ev.obj[0] == "default":
                    R.add("C01.default-written", f"{ev.obj[1]}:{ev.obj[2]}", ev.where,
                          f"{e.name} modifies the shared default value of parameter '{ev.obj[2]}' of {ev.obj[1]}", ev.chain())
        R.absorb(w)
    return R


# ---------------------------------------------------------------------------- C02
MEMO_USES = {"get", "setdefault", "clear", "pop"}


def memo_dict_attrs(p):
    """Private attributes only ever used as a lookup table (membership, item access)."""
    ok, bad = set(), set()
    for m in p.modules.values():
        parents = {}
        for n in ast.walk(m.tree):
            for c in ast.iter_child_nodes(n):
                parents[c] = n
        for n in ast.walk(m.tree):
            if not isinstance(n, ast.Attribute) or not n.attr.startswith("_"):
                continue
            par = parents.get(n)
            if isinstance(n.ctx, ast.Store):
                if isinstance(par, (ast.Assign, ast.AnnAssign)) and (
                    isinstance(par.value, ast.Dict) and not par.value.keys
                    or isinstance(par.value, ast.Call) and isinstance(par.value.func, ast.Name) and par.value.func.id == "dict" and not par.value.args and not par.value.keywords
                ):
                    ok.add(n.attr)
                else:
                    bad.add(n.attr)
            elif isinstance(par, ast.Subscript) and par.value is n:
                pass
            elif isinstance(par, ast.Compare) and n in par.comparators:
                pass
            elif isinstance(par, ast.Attribute) and par.value is n and par.attr in MEMO_USES:
                pass
            else:
                bad.add(n.attr)
    return ok - bad


def c02(p, tier):
    """Queries leave the receiver as it was (a memo filled from empty excepted)."""
    R = Result()
    memo = memo_dict_attrs(p)
    for dim in _dims(tier):
        w = World(p, dim)
        for e in entries(w, "query", functions=False, ctors=False):
            e.prepare()
            if e.recv is None:
                continue
            own = w.I.reach(e.recv, e.st)
            pre = e.st.copy()
            bad = []

            def listen(I, ev, st):
                if ev.kind in WRITES and ev.obj in own:
                    o = st.heap.get(ev.obj)
                    cur = o.fields.get(ev.field) if o is not None and o.kind == "inst" else None
                    bad.append((ev, cur))

            w.I.listeners = [listen]
            try:
                e.run()
            finally:
                w.I.listeners = []
            R.count("query_entry_points")
            R.count("receiver_objects_tracked", len(own))
            R.count("store_sites_examined", sum(1 for ev in e.out.events if ev.kind in WRITES))
            for ev, cur in bad:
                path = stable_path(own[ev.obj])
                o = pre.heap.get(ev.obj)
                if o is not None and o.kind == "inst" and isinstance(ev.field, str) and ev.field.startswith("_"):
                    if cur is None or cur.isnone:
                        R.count("memo_fills_exempted")
                        continue
                last = path.rsplit(".", 1)[-1]
                if o is not None and o.kind == "dict" and last in memo:
                    R.count("memo_fills_exempted")
                    continue
                tgt = f"{path}.{ev.field}" if o is not None and o.kind == "inst" else path
                R.add("C02.receiver-written", f"{ev.func.qualname}:{tgt}", ev.where,
                      f"query {e.name} modifies its receiver at 'self{tgt}' (state '{e.stage}')", ev.chain())
        R.absorb(w)
    return R


# ---------------------------------------------------------------------------- C03
C03_CLASSES = ["LatticeBasis", "LatticeStructure", "Lattice", "Shape", "Circle", "Donut", "ConvexHull", "DispersionPath", "DataMap"]
BYREF = {"Atom"}  # handed over by reference by design
MUTABLE = ("buf", "list", "dict", "set")


def _stop(I):
    return lambda o: o.kind == "inst" and getattr(o.cls, "name", "") in BYREF


def c03(p, tier):
    """What a constructor or configuration call stores is not the caller's object."""
    R = Result()
    for dim in _dims(tier):
        w = World(p, dim)
        todo = [e for e in entries(w, "ctor", functions=False) if e.cls.name in C03_CLASSES]
        todo += list(entries(w, "mutator", receivers=[c for c in C03_CLASSES if c in ("LatticeStructure", "Lattice", "DispersionPath")], functions=False, ctors=False))
        for cname in ("LatticeBasis", "LatticeStructure", "Lattice", "DispersionPath"):
            cls = p.cls(cname)
            from ..scenario import public_methods
            todo += [Entry(w, cls, fi, "new") for nm, fi in public_methods(cls) if fi.kind == "classmethod"]
        for e, choose in ((e, c) for e in todo for c in [None, *variants(e)]):
            e.prepare(choose)
            own = {}
            for nm, v in e.argvals():
                for oid, path in w.I.reach(v, e.st, stop_inst=_stop(w.I)).items():
                    if e.st.heap[oid].kind in MUTABLE:
                        own.setdefault(oid, nm + path)
            e.run()
            R.count("constructors_and_configuration_calls")
            R.count("caller_objects_tracked", len(own))
            if not e.out.ok:
                continue
            root = e.recv if e.recv is not None else e.out.value
            held = w.I.reach(root, e.out.st, stop_inst=_stop(w.I))
            R.count("receiver_objects_inspected", len(held))
            for oid, path in held.items():
                if oid in own:
                    f = stable_path(path)
                    R.add("C03.captured", f"{e.fi.qualname}:{stable_path(own[oid])}->{f}", f"{e.fi.module.path}:{e.fi.node.lineno} in {e.fi.qualname}",
                          f"after {e.name} the object keeps a reference to the caller's '{own[oid]}' in 'self{f}'")
        R.absorb(w)
    return R


# ---------------------------------------------------------------------------- C04
C04_CLASSES = ["LatticeBasis", "LatticeStructure", "Lattice", "LatticeData", "DataMap", "Shape", "Circle", "Donut", "ConvexHull", "WignerSeitzCell", "DispersionPath"]
REFRESULT = {"Atom", "DataMap", "KDTree"}
C04_STAGES = dict(LAT_STAGES, Lattice=["built", "periodic"])


def c04(p, tier):
    """Arrays and containers returned by query methods are not live internal state."""
    R = Result()
    for dim in _dims(tier):
        w = World(p, dim)
        for e in entries(w, "query", receivers=C04_CLASSES, functions=False, ctors=False, stages=C04_STAGES):
            if e.fi.kind == "property" or e.fi.name.startswith("__") or e.fi.name.startswith(("plot", "draw", "subplot")):
                continue
            e.prepare()
            if e.recv is None:
                continue
            e.run()
            R.count("query_methods")
            if not e.out.ok:
                continue
            st = e.out.st
            stop = lambda o: o.kind == "inst" and getattr(o.cls, "name", "") in REFRESULT
            held = w.I.reach(e.recv, st)
            got = w.I.reach(e.out.value, st, stop_inst=stop)
            R.count("result_objects_inspected", len(got))
            for oid, path in got.items():
                o = st.heap[oid]
                if oid in held and o.kind in MUTABLE:
                    R.add("C04.live-result", f"{e.fi.qualname}:{stable_path(held[oid])}", f"{e.fi.module.path}:{e.fi.node.lineno} in {e.fi.qualname}",
                          f"the result of {e.name} exposes internal storage 'self{stable_path(held[oid])}' (state '{e.stage}', D={dim})")
        for fi in p.all_functions():
            if not fi.cached():
                continue
            R.count("memoised_functions")
            # a memoised function hands the same object to every caller
            if fi.cls is None:
                e = Entry(w, None, fi, "new").prepare()
                e.run()
                if e.out.ok and any(e.out.st.heap[o].kind in MUTABLE for o in w.I.reach(e.out.value, e.out.st)):
                    R.add("C04.shared-memo", fi.qualname, f"{fi.module.path}:{fi.node.lineno} in {fi.qualname}",
                          f"memoised {fi.qualname} returns one mutable object to all callers")
        R.absorb(w)
    return R
