"""C06: per-site and per-neighbor arrays stay parallel."""
import ast

from ..align import Align, al
from ..core import parallel
from .renumber import renumber_loops
from ..loader import FunctionInfo
from ..scenario import ANY, BOOL, INT, NONE, World, arr, num
from ..values import EMPTY, NC, V, const, scalar

ROWS = ("indices", "positions", "neighbors", "distances", "paxes", "pnvecs", "pmask")
COLS = ("neighbors", "distances", "paxes", "pnvecs", "pmask")
AX = {"indices": "LI", "positions": "W", "paxes": "W", "pnvecs": "L"}


def seed(w, d, st, tag):
    """Gives the arrays of a data object d common row and slot bases."""
    m = next(iter(d.mem))
    o = st.heap[m].clone()
    S, K = frozenset([(("S", tag),)]), frozenset([(("K", tag),)])
    for a in ROWS:
        v = o.fields.get(a)
        if v is None:
            continue
        oid = w.I.sym(st, "buf", f"{tag}.{a}")
        two = a in COLS
        ax = (("S", tag),) + ((("K", tag),) if two else ()) + ((AX[a],) if a in AX else ())
        f = {k: x for k, x in v.f.items() if k in ("deg", "rnd", "dt", "role")}
        f.update(ax=ax, vn=("fld", tag, a), al=(S, K if two else None, True))
        if a == "pmask":
            f["dt"] = "bool"
        o.fields[a] = V(EMPTY, NC, frozenset([oid]), None, None, v.deps | {f"P:{tag}.{a}"}, f, w.I.clock)
    for a in ("invalid_idx", "invalid_distidx"):
        if a in o.fields:
            o.fields[a] = scalar("int", frozenset([f"P:{tag}.{a}"]), deg=0, vn=("fld", tag, a))
    if "_dmap" in o.fields:
        o.fields["_dmap"] = const(None)
    st.heap[m] = o
    return S, K


def show(h):
    def one(x):
        if isinstance(x, tuple) and x and x[0] in ("S", "K", "list"):
            return {"S": "sites", "K": "slots", "list": "collected entries"}[x[0]]
        if isinstance(x, tuple) and x and isinstance(x[0], str):
            return {"sel": "selected", "del": "rows removed", "sl": "sliced", "perm": "reordered", "cat": "joined", "hcat": "extended", "pad": "padded", "flat": "flattened", "rev": "reversed", "ccat": "joined", "ext": "extended", "sort0": "sorted column by column", "kd": "found neighbors"}.get(x[0], x[0])
        return "?"
    alts = sorted(" then ".join(one(x) for x in t) for t in h)
    return " or ".join(dict.fromkeys(alts))


def norm(h):
    return h


def disagree(R, rule, where, name, what, items, axis):
    """Reports the members of a group of parallel arrays whose history differs from the others'."""
    known = {k: norm(al(v)[axis]) for k, v in items.items() if v is not None and al(v) is not None and al(v)[axis] is not None}
    R.count("arrays_compared", len(known))
    groups = {}
    for k, h in known.items():
        groups.setdefault(h, []).append(k)
    if len(groups) < 2:
        return
    kinds = [{o[0] for x in h for o in x[1:]} & {"sel", "del"} for h in groups]
    if any(a == {"sel"} and "del" in b or b == {"sel"} and "del" in a for a in kinds for b in kinds):
        return  # rows kept against rows removed: not comparable
    big = max(groups, key=lambda h: (len(groups[h]), max(map(len, h))))
    for h, ks in groups.items():
        if h is big:
            continue
        for k in ks:
            R.add(rule, f"{name}:{k}", where, f"{what} of '{k}' ({show(h)}) no longer match those of {', '.join(repr(x) for x in groups[big])} ({show(big)}) after {name}")


def where(fi):
    return f"{fi.module.path}:{fi.node.lineno} in {fi.qualname}"


def data_checks(R, w, name, fi, d, st, st0, events, tag):
    for m in d.mem:
        o, o0 = st.heap[m], st0.heap.get(m)
        f = {a: o.fields.get(a) for a in ROWS}
        disagree(R, "C06.sites", where(fi), name, "the rows", f, 0)
        disagree(R, "C06.slots", where(fi), name, "the neighbor slots", {a: f[a] for a in COLS}, 1)
        nb = f["neighbors"]
        if nb is not None and moved(nb, tag):
            R.count("renumberings")
            if not w.al.renumbered(nb):
                R.add("C06.renumber", f"{name}:neighbors", where(fi), f"{name} moves or removes sites and leaves the site numbers stored in 'neighbors' as they were")


def moved(nb, tag=None):
    """The rows of a neighbor array were selected, removed or reordered while its entries are those of before."""
    A = al(nb)
    return A is not None and A[0] is not None and A[2] and any(len(h) > 1 and (tag is None or h[0] == ("S", tag)) and any(x[0] in ("sel", "del", "rev") for x in h[1:]) for h in A[0])


class Watch:
    """Observes hand-overs to the data object, stores into neighbor slots and lists that grow together."""

    def __init__(self, R, w, p):
        self.R, self.w, self.I = R, w, w.I
        self.A = w.al = Align(w.I)
        self.name = ""
        self.p = p
        self.dset = p.cls("LatticeData").lookup("set")
        self.dapp = p.cls("LatticeData").lookup("append")
        self.pending, self.stores, self.growth, self.entries = None, [], [], {}
        w.I.hooks["call"] = self.enter
        w.I.hooks["param"] = self.param
        w.I.hooks["return"] = self.ret
        w.I.listeners.append(self.listen)

    def begin(self, name):
        self.name = name
        self.A.on_add = self.shift if name.endswith(".append") else None
        self.stores, self.growth, self.entries = [], [], {}
        self.A.touched.clear()

    def shift(self, op, l, r, node, st, *_):
        """Site numbers of an appended section move by the number of sites before it, not by its own."""
        for x, n in ((l, r), (r, l)):
            k = self.I.vn_of(n)
            if k in (("len", ("S", "b")), ("lenh", frozenset([(("S", "b"),)]))) and not self.A.is_marker(x):
                fi = self.I.stack[-1][0]
                self.R.add("C06.shift", f"{fi.qualname}:shift", f"{fi.module.path}:{getattr(node, 'lineno', 0)} in {fi.qualname}", f"site numbers are shifted by the number of sites of the appended section instead of the number of sites before it ({self.name})")

    # -- hand-over of parallel arrays ----------------------------------------------------
    def enter(self, I, f, args, kw, st, node):
        if f[0] == "bound" and f[1] is self.dset:
            names = [x.arg for x in self.dset.node.args.args][1:]
            vals = dict(zip(names, args)) | kw
            fi = I.stack[-1][0]
            R, at = self.R, f"{fi.module.path}:{getattr(node, 'lineno', 0)} in {fi.qualname}"
            disagree(R, "C06.handover", at, self.name, "the rows", {n: vals.get(n) for n in ("indices", "positions", "neighbors", "distances")}, 0)
            disagree(R, "C06.handover", at, self.name, "the neighbor slots", {n: vals.get(n) for n in ("neighbors", "distances")}, 1)
            R.count("handovers")
            nb = vals.get("neighbors")
            if nb is not None and moved(nb):
                R.count("renumberings")
                if not self.A.renumbered(nb):
                    R.add("C06.renumber", f"{fi.qualname}:neighbors", at, f"sites are moved or removed and the site numbers stored in 'neighbors' stay as they were on the way to the lattice data ({self.name})")
            parts = nb.f.get("catof") if nb is not None else None
            if parts and len(parts) == 2 and nb.f.get("al") is not None:
                A, mem = parts[1]
                R.count("renumberings")
                if A is not None and A[2] and not mem & self.A.touched:
                    R.add("C06.renumber", f"{fi.qualname}:appended", at, f"the site numbers in the appended part of 'neighbors' are not shifted by the number of sites before it ({self.name})")
        return None

    def param(self, I, fi, nm, v, st):
        if fi is self.dset and nm != "self" and v.mem:
            two = nm in ("neighbors", "distances")
            return v.with_f(al=(frozenset([(("S", "set"),)]), frozenset([(("K", "set"),)]) if two else None, True))
        return None

    # -- stores into slots; lists -----------------------------------------------------------
    def listen(self, I, ev, st):
        o = st.heap.get(ev.obj)
        if ev.kind != "write" or o is None:
            return
        if o.kind == "buf" and isinstance(ev.info, tuple) and ev.info[1] is not None and not ev.info[2]:
            ix = ev.info[1]
            if ix.elts is not None and len(ix.elts) >= 2 and not ix.mem:
                self.stores.append((ev.obj, ev.stack[-1][0], self.A.key(ix.elts[0], st), self.A.key(ix.elts[1], st), ev.val, ev.node))
        elif o.kind == "list" and ev.field in (".append()", ".extend()", ".insert()", "[aug]"):
            holders = {oid for oid, x in st.heap.items() if x.kind == "dict" and (x.elem is not None and ev.obj in x.elem.mem or any(ev.obj in y.mem for y in x.fields.values()))}
            self.growth.append((holders or {ev.obj}, ev))
        elif o.kind == "dict" and isinstance(ev.info, V) and ev.val is not None and al(ev.val) is not None and al(ev.val)[0] is not None:
            if not all(h and h[0] == ("list",) for h in al(ev.val)[0]):
                return
            t = next((x for x in ast.walk(ev.node) if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store)), None) if ev.node is not None else None
            k = I.vn_of(ev.info) or (ast.unparse(t.slice) if t is not None else None)
            if k is not None:
                self.entries.setdefault((ev.stack[-1][0], k), {})[ev.obj] = (ev.val, ev)

    def ret(self, I, fi, val, st, node):
        if val is None or val.elts is None or len(val.elts) < 2 or not isinstance(fi, FunctionInfo):
            return self.base(fi, val)
        boxes = []
        for e in val.elts:
            b = e.f.get("fromlist")
            if b is None and len(e.mem) == 1 and not e.prim:
                m = next(iter(e.mem))
                if m in st.heap and st.heap[m].kind in ("dict", "list"):
                    b = m
            boxes.append(b)
        if sum(b is not None for b in boxes) >= 2:
            self.parallel_growth(fi, [b for b in boxes if b is not None], len(I.stack))
        return self.base(fi, val)

    def base(self, fi, val):
        if fi.name == "build_indices" and val is not None and val.elts is not None and len(val.elts) == 2:
            if self.A.anon:
                return None
            b = frozenset([(("S", "built"),)])
            return val.clone(elts=tuple(x.with_f(al=(b, None, True)) if x.mem and not x.isnone else x for x in val.elts))
        if fi.name == "check_points" and val is not None and val.mem:
            self.A.masks.add(("chk",))
            return val.with_f(vn=("chk",))
        return None

    def parallel_growth(self, fi, boxes, depth):
        """Containers returned together grow in the same blocks of the function that fills them."""
        parent = {}
        for n in ast.walk(fi.node):
            for fld, sub in ast.iter_fields(n):
                if isinstance(sub, list) and sub and isinstance(sub[0], ast.stmt):
                    for s in sub:
                        parent[s] = (n, fld)
        stmts = {}
        for s in parent:
            for x in ast.walk(s):
                if x not in stmts or isinstance(x, ast.stmt) and x is s:
                    stmts[x] = s
        inner = {}
        for s in sorted(parent, key=lambda s: (s.lineno, -(s.end_lineno or 0))):
            for x in ast.walk(s):
                inner[x] = s  # innermost statement wins: visited last
        sites = {b: {} for b in boxes}
        order = {}
        for holders, ev in self.growth:
            lv = [n for n, (f, _) in enumerate(ev.stack) if f is fi]
            if not lv:
                continue
            n = lv[-1]
            node = ev.node if n == len(ev.stack) - 1 else ev.stack[n + 1][1]
            s = inner.get(node)
            if s is None:
                continue
            for h in holders:
                if h in sites:
                    key = None
                    if n == len(ev.stack) - 1 and isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute):
                        r = node.func.value
                        key = ast.unparse(r.args[0]) if isinstance(r, ast.Call) and r.args else ast.unparse(r.slice) if isinstance(r, ast.Subscript) else None
                    sites[h].setdefault(parent[s] + (key,), set()).add((s, node))
                    order.setdefault(parent[s] + (key,), set()).add(s)
        full = {b: x for b, x in sites.items() if x}
        if len(full) < 2:
            return
        self.R.count("containers_compared", len(full))
        counts = {b: {blk: len(v) for blk, v in x.items()} for b, x in full.items()}
        first = next(iter(counts.values()))
        for b, c in counts.items():
            if c != first:
                blk = next((k for k in set(c) | set(first) if c.get(k) != first.get(k)))
                ss = sorted(order[blk], key=lambda s: s.lineno)
                self.R.add("C06.growth", f"{fi.qualname}:growth", f"{fi.module.path}:{ss[0].lineno} in {fi.qualname}", f"lists that {fi.qualname} returns as parallel arrays do not receive their entries together: some grow here and others do not")
                return
        for blk, ss in order.items():
            body = getattr(blk[0], blk[1])
            ix = sorted(body.index(s) for s in ss)
            for s in body[ix[0]:ix[-1]]:
                if s not in ss and any(isinstance(x, (ast.Continue, ast.Break, ast.Return)) for x in ast.walk(s)):
                    self.R.add("C06.growth", f"{fi.qualname}:jump", f"{fi.module.path}:{s.lineno} in {fi.qualname}", f"lists that {fi.qualname} returns as parallel arrays do not receive their entries together: this statement can leave the block between them")

    # -- after a call -----------------------------------------------------------------------
    def finish(self, d, st):
        R = self.R
        for (fi, k), g in self.entries.items():
            R.count("parallel_entries", len(g))
            names = {}
            for oid, (v, ev) in g.items():
                t = (getattr(ev.node, "targets", None) or [None])[0]
                n = t.value.id if hasattr(t, "value") and hasattr(t.value, "id") else f"entry at line {getattr(ev.node, 'lineno', 0)}"
                names[n] = v
            disagree(R, "C06.collected", where(fi), self.name, "the entries", names, 0)
        if d is None or not d.mem:
            return
        o = st.heap[next(iter(d.mem))]
        owner = {m: a for a in COLS if o.fields.get(a) is not None for m in o.fields[a].mem}
        by = {}
        for obj, fi, rk, sk, val, node in self.stores:
            if obj in owner:
                by.setdefault(fi, {}).setdefault(owner[obj], []).append((rk, sk, val, node))
        for fi, fields in by.items():
            R.count("slot_stores", sum(map(len, fields.values())))
            keys = {a: {x[1] for x in ws} for a, ws in fields.items()}
            known = {a: k for a, k in keys.items() if None not in k}
            if len(known) > 1:
                ref = known.get("neighbors", next(iter(known.values())))
                for a, k in known.items():
                    if k != ref:
                        n = fields[a][0][3]
                        R.add("C06.slotstore", f"{fi.qualname}:{a}", f"{fi.module.path}:{getattr(n, 'lineno', 0)} in {fi.qualname}", f"'{a}' is filled at other slots than 'neighbors'")
            for sk in {x[1] for ws in fields.values() for x in ws} - {None}:
                vals = {a: x[2] for a, ws in fields.items() for x in ws if x[1] == sk and x[2] is not None}
                disagree(R, "C06.slotvalue", where(fi), fi.qualname, "the values stored", vals, 0)


CASES = [
    ("remove", dict(sites=arr(("R",), deg=0, ints=True))), ("remove", dict(sites=INT)),
    ("sort", dict(ax=INT)), ("sort", dict(indices=arr(("N",), deg=0, ints=True))), ("sort", dict(ax=INT, reverse=("const", True))),
    ("sort", dict(indices=arr(("N",), deg=0, ints=True), reverse=("const", True))), ("sort", dict(ax=INT, reverse=BOOL)),
    ("sort_neighbors", {}), ("remove_periodic", {}), ("add_neighbors", dict(site=num("int", 0), neighbors=INT, distances=num("float", 1))),
    ("add_neighbors", dict(site=num("int", 0), neighbors=arr(("Q",), deg=0, ints=True), distances=arr(("Q",), deg=1))),
    ("set_periodic", dict(indices=("pdict", arr(("P",), deg=0, ints=True)), distances=("pdict", arr(("P",), deg=1)), nvecs=("pdict", arr(("P",), "L", deg=0, ints=True)), axes=("pdict", arr(("P",), "?", deg=0, ints=True)))),
]


Q = (frozenset([(("Q",),)]), None, True)


def pick(w, st, fi, specs):
    """Arguments; arrays (or dictionaries of arrays) over the same new neighbors are parallel."""
    names = [x.arg for x in fi.node.args.args]
    out = {}
    for k, s in specs.items():
        if k not in names:
            continue
        v = w.make(st, s, k)
        if isinstance(s, tuple) and s[0] == "pdict":
            o = st.heap[next(iter(v.mem))].clone()
            o.elem = o.elem.with_f(al=Q)
            st.heap[next(iter(v.mem))] = o
        elif k in ("neighbors", "distances") and v.mem:
            v = v.with_f(al=Q)
        out[k] = v
    return out


def data_part(p, R, dim):
    w = World(p, dim)
    W = Watch(R, w, p)
    cls = p.cls("LatticeData")
    for stage in ("built", "periodic"):
        for nm, specs in CASES:
            fi = cls.lookup(nm)
            if not isinstance(fi, FunctionInfo):
                continue
            v, st = w.receiver("LatticeData", stage)
            seed(w, v, st, "a")
            kw = pick(w, st, fi, specs)
            st0 = st.copy()
            W.begin(f"LatticeData.{nm}")
            out = w.call(fi, [], kw, st, selfv=v)
            R.count("cases")
            if out.ok:
                W.finish(v, out.st)
                data_checks(R, w, f"LatticeData.{nm}", fi, v, out.st, st0, out.events, "a")
        fi = cls.lookup("append")
        for arrays in (False, True):
            for copy in (False, True):
                v, st = w.receiver("LatticeData", stage)
                seed(w, v, st, "a")
                lv = w.make(st, ("data",), "other")
                S, K = seed(w, lv, st, "b")
                o = st.heap[next(iter(lv.mem))]
                args = [o.fields[a] for a in ("indices", "positions", "neighbors", "distances")] if arrays else [lv]
                st0 = st.copy()
                W.begin("LatticeData.append")
                out = w.call(fi, args, {"copy": w.make(st, ("const", copy), "copy")}, st, selfv=v)
                R.count("cases")
                if out.ok:
                    data_checks(R, w, "LatticeData.append", fi, out.value if copy and out.value.mem else v, out.st, st0, out.events, "a")
        fi = cls.lookup("set")
        v, st = w.receiver("LatticeData", stage)
        seed(w, v, st, "a")
        ov = w.make(st, ("data",), "other")
        seed(w, ov, st, "b")
        o = st.heap[next(iter(ov.mem))]
        st0 = st.copy()
        W.begin("LatticeData.set")
        out = w.call(fi, [o.fields[a] for a in ("indices", "positions", "neighbors", "distances")], {}, st, selfv=v)
        R.count("cases")
        if out.ok:
            data_checks(R, w, "LatticeData.set", fi, v, out.st, st0, out.events, "b")
    R.count("alignment_facts", W.A.count)
    R.absorb(w)


def lattice_part(p, R, dim, stage):
    """Through the public calls of Lattice: hand-over to the data object and results of queries."""
    w = World(p, dim)
    W = Watch(R, w, p)
    cls = p.cls("Lattice")

    def recv(st="built"):
        v, s = w.receiver("Lattice", st)
        d = s.heap[next(iter(v.mem))].fields["data"]
        seed(w, d, s, "a")
        return v, d, s
    jobs = [("build", dict(shape=arr("W", deg=1))), ("build", dict(shape=arr("W", deg=1), min_neighbors=INT)), ("build", dict(shape=arr("W", deg=1), min_neighbors=INT, periodic=INT)),
            ("build", dict(shape=arr("W", deg=1), callback=("callable", "mask"))), ("build", dict(shape=arr("W", deg=1), callback=("callable", "mask"), min_neighbors=INT)),
            ("set_periodic", dict(axis=INT)), ("set_periodic", dict(axis=arr(("P",), deg=0, ints=True))), ("set_periodic", dict(axis=NONE)),
            ("extend", dict(size=num("float", 1))), ("extend", dict(size=num("float", 1), sort_ax=INT, sort_reverse=BOOL)), ("repeat", dict(num=INT)), ("repeat", dict(num=INT, sort_ax=INT))]
    for nm, specs in jobs:
        fi = cls.lookup(nm)
        v, d, st = recv(stage)
        kw = pick(w, st, fi, specs)
        st0 = st.copy()
        W.begin(f"Lattice.{nm}")
        out = w.call(fi, [], kw, st, selfv=v)
        R.count("cases")
        if out.ok:
            d2 = out.st.heap[next(iter(v.mem))].fields["data"]
            W.finish(d2, out.st)
            data_checks(R, w, W.name, fi, d2, out.st, st0, out.events, "a")
    for srt in ({}, dict(sort_ax=INT)):
        fi = cls.lookup("append")
        W.begin("Lattice.append")
        v, d, st = recv(stage)
        l2 = w.make(st, ("latt", stage), "latt")
        seed(w, st.heap[next(iter(l2.mem))].fields["data"], st, "b")
        kw = pick(w, st, fi, srt)
        st0 = st.copy()
        out = w.call(fi, [l2], kw, st, selfv=v)
        R.count("cases")
        if out.ok:
            d2 = out.st.heap[next(iter(v.mem))].fields["data"]
            W.finish(d2, out.st)
            data_checks(R, w, W.name, fi, d2, out.st, st0, out.events, "a")
    W.begin("")
    # queries that return parallel arrays
    fi = cls.lookup("neighbor_pairs")
    for u in (("const", False), ("const", True), BOOL):
        v, d, st = recv(stage)
        out = w.call(fi, [], {"unique": w.make(st, u, "unique")}, st, selfv=v)
        R.count("cases")
        if out.ok and out.value.elts is not None and len(out.value.elts) == 2:
            disagree(R, "C06.result", where(fi), "Lattice.neighbor_pairs", "the rows", dict(zip(("pairs", "distance indices"), out.value.elts)), 0)
    v, d, st = recv(stage)
    fi = cls.lookup("dmap")
    out = w.call(fi, [], {}, st, selfv=v)
    if out.ok:
        R.count("cases")
        for m in out.value.mem:
            o = out.st.heap[m]
            fs = {a: x for a, x in o.fields.items() if x.mem and al(x) is not None}
            disagree(R, "C06.result", where(fi), "the DataMap", "the rows", fs, 0)
    ls = p.cls("LatticeStructure")
    fi = ls.lookup("compute_neighbors")
    v, st = w.receiver("LatticeStructure", "analyzed")
    base = frozenset([(("S", "n"),)])
    kw = {n: w.make(st, s, n).with_f(al=(base, None, True)) for n, s in (("indices", arr(("N",), "LI", deg=0, ints=True)), ("positions", arr(("N",), "W", deg=1)))}
    ref = kw["positions"]
    out = w.call(fi, [], kw, st, selfv=v)
    R.count("cases")
    if out.ok and out.value.elts is not None and len(out.value.elts) == 2:
        g = dict(zip(("neighbors", "distances"), out.value.elts))
        disagree(R, "C06.result", where(fi), "compute_neighbors", "the rows", g | {"positions": ref}, 0)
        disagree(R, "C06.result", where(fi), "compute_neighbors", "the neighbor slots", g, 1)
    # filters of new sites
    fi = ls.lookup("build_indices")
    W.A.anon = True
    for specs in (dict(check=("const", True)), dict(check=("const", True), callback=("callable", "mask")), dict(check=("const", False), callback=("callable", "mask"))):
        v, st = w.receiver("LatticeStructure", "analyzed")
        kw = pick(w, st, fi, dict(specs, shape=arr("W", deg=1), return_pos=("const", True)))
        W.begin("build_indices")
        out = w.call(fi, [], kw, st, selfv=v)
        R.count("cases")
        if not out.ok or out.value.elts is None or len(out.value.elts) != 2:
            continue
        for what, mk in (("the volume", ("chk",)), ("the callback", None)):
            if what == "the callback" and "callback" not in specs or mk == ("chk",) and not specs["check"][1]:
                continue
            keys = {m for m in W.A.masks if m[0] == (mk[0] if mk else "cb")}
            hist = {}
            for n, x in zip(("indices", "positions"), out.value.elts):
                A = al(x)
                if A is None or A[0] is None:
                    hist[n] = None
                else:
                    hist[n] = {sum(1 for o in h[1:] if o[0] == "sel" and o[1] in keys) for h in A[0]}
            R.count("filters_compared", len(hist))
            if None not in hist.values() and hist["indices"] != hist["positions"]:
                R.add("C06.filter", f"build_indices:{what}", where(fi), f"the filter for {what} is applied to one of the arrays of indices and positions and not in the same way to the other")
    W.A.anon = False
    fi = p.cls("KDTree").lookup("query")
    for x in ("omit", arr(("N",), "W", deg=1)):
        for dec in ("omit", INT):
            for inc in (("const", False), ("const", True)):
                v, st = w.receiver("KDTree", "new")
                kw = {}
                if x != "omit":
                    kw["x"] = w.make(st, x, "x").with_f(al=(base, None, True))
                if dec != "omit":
                    kw["decimals"] = w.make(st, dec, "decimals")
                kw["include_zero"] = w.make(st, inc, "include_zero")
                out = w.call(fi, [], kw, st, selfv=v)
                R.count("cases")
                if out.ok and out.value.elts is not None and len(out.value.elts) == 2:
                    g = dict(zip(("neighbors", "distances"), out.value.elts))
                    disagree(R, "C06.result", where(fi), "KDTree.query", "the rows", g, 0)
                    disagree(R, "C06.result", where(fi), "KDTree.query", "the columns", g, 1)
    R.count("alignment_facts", W.A.count)
    R.absorb(w)


def part(p, R, kind, *a):
    {"data": data_part, "lattice": lattice_part, "loops": renumber_loops}[kind](p, R, *a)


def c06(p, tier):
    """Arrays with one row per site or one column per neighbor slot undergo the same selections in the same order."""
    dims = (1, 2, 3, 4) if tier == "thorough" else (1, 2, 3)
    R, _ = parallel(p, part, [x for d in dims for x in (("data", d), ("lattice", d, "built"), ("lattice", d, "periodic"))] + [("loops",)])
    return R
