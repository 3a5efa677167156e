"""C05: nothing computed from lattice data outlives that data in a cache."""
import ast

from ..core import Entry, Result, entries
from ..loader import ClassInfo
from ..scenario import World, is_mutator, public_methods
from ..values import V, const

WRITES = ("write", "del")
RECV = {"LatticeBasis": "new", "LatticeStructure": "analyzed", "Lattice": "periodic", "LatticeData": "periodic", "DispersionPath": "points",
        "DataMap": "new", "WignerSeitzCell": "new", "Shape": "new", "Circle": "new", "Donut": "new", "ConvexHull": "new"}


def _cls(st, oid):
    o = st.heap.get(oid)
    return o.cls if o is not None and o.kind == "inst" and isinstance(o.cls, ClassInfo) else None


def _deepdeps(I, v, st):
    """Labels of everything stored in a value, through the objects it holds."""
    deps = v.deps | I.content(v, st).deps
    for x in v.elts or ():
        deps |= x.deps
    for oid in I.reach(v, st):
        o = st.heap[oid]
        deps |= o.std
        for x in list(o.fields.values()) + list(o.elts or ()) + [o.elem, o.key]:
            if x is not None:
                deps |= x.deps
    return deps


class Memo:
    def __init__(self, holder, attr):
        self.holder, self.attr = holder, attr
        self.sources = set()
        self.queries = set()


def discover(w, R, report=False):
    """Fields a query fills in for later calls, with the fields they were computed from."""
    memos = {}
    blanks = blankable(w.p)
    for cname, stage in RECV.items():
        cls = w.p.cls(cname)
        for nm, fi in public_methods(cls):
            if fi.kind in ("classmethod", "staticmethod") or is_mutator(fi, cls):
                continue
            _search(w, R, cname, cls, nm, fi, stage, memos, report, blanks, None)
    return memos


def blankable(p):
    """(class, attr): private fields some code of the package sets to None."""
    out = set()
    for m in p.modules.values():
        for c in ast.walk(m.tree):
            if not isinstance(c, ast.ClassDef):
                continue
            for n in ast.walk(c):
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant) and n.value.value is None:
                    for t in n.targets:
                        if isinstance(t, ast.Attribute) and t.attr.startswith("_"):
                            out.add(t.attr)
    return out


def _search(w, R, cname, cls, nm, fi, stage, memos, report, blanks, blank):
    e = Entry(w, cls, fi, stage).prepare()
    own = w.I.reach(e.recv, e.st)
    if blank is not None:
        for oid in own:
            o = e.st.heap[oid]
            if o.kind == "inst" and blank in o.fields:
                o = o.clone()
                o.fields[blank] = const(None)
                e.st.heap[oid] = o
    reads = set()

    def on_read(I, m, attr, v, st, node):
        if m in own:
            reads.add(attr)

    def listen(I, ev, st):
        if ev.kind not in WRITES or ev.val is None:
            return
        o = st.heap.get(ev.obj)
        if o is None:
            return
        key = None
        if o.kind == "inst" and ev.obj in own and isinstance(ev.field, str):
            cur = o.fields.get(ev.field)
            if not ev.field.startswith("_") or not (cur is None or cur.isnone):
                return
            c = _cls(st, ev.obj)
            if c is None or ev.val.isnone:
                return
            key = (c.name, ev.field.replace("__cached_", ""))
        elif o.kind == "dict" and ev.obj in own:
            path = own[ev.obj].split(".")
            if len(path) < 2 or not path[-1].startswith("_") or "[" in path[-1]:
                return
            for m2 in own:
                c = _cls(st, m2)
                if c is not None and path[-1] in st.heap[m2].fields and ev.obj in st.heap[m2].fields[path[-1]].mem:
                    key = (c.name, path[-1])
        elif o.origin and str(o.origin).startswith("global:") and o.kind == "dict":
            key = ("<shared>", str(o.origin)[7:])
        if key is None:
            return
        m = memos.setdefault(key, Memo(*key))
        deps = _deepdeps(I, ev.val, st)
        m.sources |= {a for a in reads if f"F:{a}" in deps} - {key[1]}
        m.queries.add(f"{cname}.{nm}")
        if report:
            R.count("memo_stores_examined")
            pars = {d[2:] for d in deps if d.startswith("P:") and not d.startswith("P:self.")}
            formal = set(fi.params()) - {"self"}
            lost = pars & formal
            kdeps = _deepdeps(I, ev.info, st) if o.kind == "dict" and isinstance(ev.info, V) else None
            if kdeps is not None:
                lost -= {d[2:] for d in kdeps if d.startswith("P:")}
                if key[0] == "<shared>":
                    # a table shared by all objects has to be keyed by the object's data too
                    miss = {a for a in m.sources if f"F:{a}" not in kdeps}
                    if miss:
                        R.add("C05.shared-cache-key", f"{fi.qualname}:{key[1]}", ev.where,
                              f"{cname}.{nm} stores a value computed from {sorted(miss)} in the shared table {key[1]} whose key does not contain them", ev.chain())
            if lost:
                R.add("C05.argument-ignored", f"{fi.qualname}:{key[0]}.{key[1]}", ev.where,
                      f"{cname}.{nm} caches a value that depends on its argument(s) {sorted(lost)} in {key[0]}.{key[1]} and returns it for other arguments", ev.chain())

    w.I.hooks["field_read"] = on_read
    w.I.listeners = [listen]
    try:
        e.run()
    finally:
        w.I.listeners = []
        w.I.hooks.pop("field_read", None)
    R.count("queries_searched_for_caches")
    if blank is None:
        done = {a for _, a in memos}
        for a in sorted((reads & blanks) - done):
            _search(w, R, cname, cls, nm, fi, stage, memos, report, blanks, a)


def c05(p, tier):
    """A value kept for later calls is dropped whenever the data it was computed from changes."""
    R = Result()
    for dim in ((1, 2, 3, 4) if tier == "thorough" else (1, 2, 3)):
        w = World(p, dim)
        memos = discover(w, R, report=True)
        memos = {k: m for k, m in memos.items() if k[0] != "<shared>"}
        R.count("cache_fields", len(memos))
        for cname, stage in (("LatticeStructure", "analyzed"), ("Lattice", "built"), ("Lattice", "periodic"), ("LatticeData", "built"), ("LatticeData", "periodic"), ("DispersionPath", "points")):
            cls = p.cls(cname)
            for nm, fi in public_methods(cls):
                if not is_mutator(fi, cls):
                    continue
                e = Entry(w, cls, fi, stage).prepare()
                # fill every cache the receiver offers first
                st = e.st
                for q in sorted({q for m in memos.values() for q in m.queries}):
                    qc, qn = q.split(".")
                    tgt = None
                    for oid in w.I.reach(e.recv, st):
                        c = _cls(st, oid)
                        if c is not None and c.name == qc:
                            tgt = oid
                    if tgt is None:
                        continue
                    qe = Entry(w, p.cls(qc), p.cls(qc).lookup(qn), stage)
                    a, k = w.arguments(st, qe.fi, qe.cls) if qe.fi.kind != "property" else ([], {})
                    out = w.call(qe.fi, a, k, st, selfv=V(mem=frozenset([tgt])))
                    if out.ok:
                        st = out.st
                e.st = st
                own = w.I.reach(e.recv, st)
                holders = {}
                for oid in own:
                    c = _cls(st, oid)
                    if c is None:
                        continue
                    for (h, attr), m in memos.items():
                        if any(x.name == h for x in c.mro()):
                            holders.setdefault(oid, []).append(m)
                if not holders:
                    R.count("mutators_without_caches")
                    continue

                def owned(I, st, oid):
                    """Receiver instances currently reachable with their source fields."""
                    return I.reach(e.recv, st)

                def listen(I, ev, st):
                    if ev.kind not in WRITES:
                        return
                    o = st.heap.get(ev.obj)
                    if o is None:
                        return
                    fieldset = set()
                    now = owned(I, st, ev.obj)
                    if ev.obj not in now:
                        return
                    if o.kind == "inst":
                        fieldset = {ev.field}
                    else:
                        # a buffer or container below source fields
                        for oid in now:
                            if _cls(st, oid) is None:
                                continue
                            for a, v in st.heap[oid].fields.items():
                                if ev.obj in v.mem:
                                    fieldset.add(a)
                    for h, ms in holders.items():
                        for m in ms:
                            flag = f"may_stale:{m.holder}.{m.attr}"
                            cur = st.heap[h].fields.get(m.attr) or st.heap[h].fields.get("__cached_" + m.attr)
                            if o.kind == "inst" and ev.obj == h and ev.field in (m.attr, "__cached_" + m.attr):
                                st.flags.pop(flag, None)
                                if ev.kind == "del":
                                    pass
                                continue
                            if m.attr in fieldset:
                                # the cache's own table is written or cleared
                                if o.kind == "dict" and str(ev.field) == ".clear()":
                                    st.flags.pop(flag, None)
                                continue
                            if fieldset & m.sources and cur is not None and not cur.isnone:
                                R.count("source_stores_examined")
                                st.flags[flag] = st.flags.get(flag, frozenset()) | {(ev.where, ev.chain(), tuple(sorted(fieldset & m.sources)))}

                w.I.listeners = [listen]
                try:
                    e.run()
                finally:
                    w.I.listeners = []
                R.count("mutators_checked")
                if not e.out.ok:
                    continue
                for h, ms in holders.items():
                    for m in ms:
                        fl = e.out.st.flags.get(f"may_stale:{m.holder}.{m.attr}")
                        cur = e.out.st.heap[h].fields.get(m.attr) or e.out.st.heap[h].fields.get("__cached_" + m.attr)
                        if fl and cur is not None and not cur.isnone:
                            where, chain, flds = sorted(fl)[0]
                            R.add("C05.stale-cache", f"{fi.qualname}:{m.holder}.{m.attr}", where,
                                  f"{e.name} changes {', '.join(flds)} and can return while {m.holder}.{m.attr} (filled by {', '.join(sorted(m.queries))}) still holds the old value", chain)
        R.absorb(w)
        # memoised methods: keyed by receiver identity or equality, never dropped
        for fi in p.all_functions():
            if fi.cls is None or not fi.cached():
                continue
            R.count("memoised_methods")
            if fi.kind == "property":
                continue
            cls = fi.cls
            rc = next((n for n in RECV if p.cls(n) is cls), None)
            if rc is None:
                continue
            reads = set()
            e = Entry(w, cls, fi, RECV[rc]).prepare()
            own = w.I.reach(e.recv, e.st)
            w.I.hooks["field_read"] = lambda I, m, attr, v, st, node: reads.add(attr) if m in own else None
            try:
                e.run()
            finally:
                w.I.hooks.pop("field_read", None)
            written = set()
            for nm, mf in public_methods(cls):
                if is_mutator(mf, cls):
                    me = Entry(w, cls, mf, RECV[rc]).prepare()
                    mown = w.I.reach(me.recv, me.st)
                    me.run()
                    written |= {ev.field for ev in me.out.events if ev.kind in WRITES and ev.obj in mown and isinstance(ev.field, str)}
            bad = reads & written
            if bad:
                R.add("C05.memoised-method", fi.qualname, f"{fi.module.path}:{fi.node.lineno} in {fi.qualname}",
                      f"memoised method {fi.qualname} reads {sorted(bad)}, which later calls change")
    return R
