"""Alignment facts: which selections were applied to the rows and columns of an array.

The fact "al" of a value is (rows, cols, pure): sets of alternative histories of axis 0 and
axis 1, or None where unknown.  A history is a tuple (base, op, op, ...).  Two arrays with the
same histories have their rows (columns) in the same order.  'pure': the elements themselves
are unchanged elements of the base array.
"""
import ast

from . import values
from .models import bindargs, classify_index, index_items
from .values import NC, V

MAXOPS, MAXALT = 10, 8


def join_al(a, b):
    def j(x, y):
        if x is None or y is None:
            return None
        z = x | y
        return z if len(z) <= MAXALT else None
    r, c = j(a[0], b[0]), j(a[1], b[1])
    return (r, c, a[2] and b[2]) if r is not None or c is not None else None


values.JOIN["al"] = join_al

KEEP = {"array", "asarray", "asanyarray", "ascontiguousarray", "copy", "astype", "abs", "absolute", "fabs", "round", "around", "rint", "floor", "ceil", "trunc", "sqrt", "square", "negative", "isfinite", "isinf", "isnan", "logical_not",
        "invert", "zeros_like", "ones_like", "full_like", "empty_like", "nan_to_num", "clip", "isin", "in1d", "deepcopy", "view", "exp", "sign", "real", "conj", "atleast_2d", "isclose"}
PURE = {"array", "asarray", "asanyarray", "ascontiguousarray", "copy", "astype", "deepcopy", "view", "atleast_2d", "atleast_1d"}
BINARY = {"add", "subtract", "multiply", "divide", "minimum", "maximum", "logical_and", "logical_or", "bitwise_and", "bitwise_or", "less", "less_equal", "greater", "greater_equal", "equal", "not_equal", "where", "power", "mod", "floor_divide", "true_divide"}
REDUCE = {"any", "all", "sum", "min", "max", "amin", "amax", "mean", "count_nonzero", "argmin", "argmax", "prod", "nanmin", "nanmax"}


def al(v):
    return v.f.get("al") if v is not None else None


def op(h, *o):
    if h is None:
        return None
    out = frozenset(x + (o,) for x in h)
    return out if all(len(x) <= MAXOPS for x in out) else None


class Align:
    def __init__(self, I):
        self.I = I
        I.hooks["post"] = self.post
        self.rev = {}
        self.count = 0
        self.anon = False
        self.touched = set()
        self.on_add = None
        self.masks = set()
        I.listeners.append(self.listen)

    # -- identities of values ------------------------------------------------------------
    def key(self, v, st):
        k = self.I.vn_of(v)
        if k is not None and not (k[0] == "v" and v.mem):
            return k
        if v.mem:
            return ("mem", v.f.get("view", False), frozenset((m, st.heap[m].ver if m in st.heap else 0) for m in v.mem))
        if v.elts is not None:
            ks = tuple(self.key(e, st) for e in v.elts)
            return ("tup",) + ks if None not in ks else None
        if v.fn and v.fn[0][0] == "slice":
            ks = tuple("-" if y is None else self.key(y, st) for y in v.fn[0][1:4])
            return ("sl",) + ks if None not in ks else None
        return k

    def definition(self, k):
        if len(self.rev) != len(self.I.vn_table):
            self.rev = {v: x for x, v in self.I.vn_table.items()}
        return self.rev.get(k)

    def canon(self, k):
        """Sequence of elementary selections an index value stands for."""
        d = self.definition(k) if isinstance(k, tuple) and k and k[0] == "e" else None
        if d is None:
            return (k,)
        if d[0] == "pargsort":
            k2 = d[1]
            d2 = self.definition(k2) if isinstance(k2, tuple) and k2 and k2[0] == "e" else None
            if d2 is not None and d2[0] == "pidx" and "distvals" in str(d2[1]):
                k2 = d2[2]
            return (("order", k2),)
        if d[0] == "nz" and d[2] == 0:
            return (self.mask(d[1]),)
        if d[0] == "pidx" and d[3] is False:
            return self.canon(d[1]) + self.canon(d[2])
        return (self.mask(k),)

    NEG = {"NotEq": "Eq", "GtE": "Lt", "LtE": "Gt"}

    def mask(self, k, depth=0):
        """Canonical form of a boolean condition: negations are moved outside."""
        d = self.definition(k) if isinstance(k, tuple) and k and k[0] == "e" and depth < 8 else None
        if d is None:
            return k

        def neg(m):
            return m[1] if isinstance(m, tuple) and m and m[0] == "not" else ("not", m)
        if d[0] in ("un", "uf") and d[1] in ("Invert", "Not", "logical_not", "invert"):
            return neg(self.mask(d[2], depth + 1))
        if d[0] in ("punInvert", "punNot", "plogical_not", "pinvert"):
            return neg(self.mask(d[1], depth + 1))
        if d[0] == "cmp" or d[0].startswith("pcmp"):
            o, a, b = (d[1], d[2], d[3]) if d[0] == "cmp" else (d[0][4:], d[1], d[2])
            a, b = self.mask(a, depth + 1), self.mask(b, depth + 1)
            if isinstance(b, tuple) and b[0] == "fld" and "invalid" in str(b[2]) and o in ("Lt", "GtE"):
                o = {"Lt": "NotEq", "GtE": "Eq"}[o]  # the marker is the largest index
            if o in ("Gt", "LtE"):
                o, a, b = {"Gt": "Lt", "LtE": "GtE"}[o], b, a
            return neg(("cond", self.NEG[o], a, b)) if o in self.NEG else ("cond", o, a, b)
        if d[0] == "pisin" and len(d) > 3:
            return k
        if d[0] in ("flatten", "pflatten", "pravel", "ravel"):
            return ("flatten", self.mask(d[1], depth + 1))
        return k

    def neg(self, k):
        m = self.mask(k)
        return m[1] if m[0] == "not" else ("not", m)

    def removal(self, k):
        """Operation that stands for removing the rows k."""
        d = self.definition(k) if isinstance(k, tuple) and k and k[0] == "e" else None
        if d is not None and d[0] in ("unique", "sort", "psort", "sorted", "list", "tuple", "set", "pasarray", "parray"):
            return self.removal(d[1])
        if d is not None and d[0] == "nz" and d[2] == 0:
            m = self.mask(d[1])
            return ("sel", m[1] if m[0] == "not" else ("not", m))
        return ("del", k)

    def order(self, v, st):
        """Identity of the permutation that sorts v (lookups in the sorted table of distances keep the order)."""
        k = self.key(v, st)
        d = self.definition(k) if isinstance(k, tuple) and k and k[0] == "e" else None
        if d is not None and d[0] == "pidx" and "distvals" in str(d[1]):
            k = d[2]
        return ("order", k) if k is not None else None

    def sel(self, h, k):
        if h is None or k is None:
            return None
        flat = any(x and x[0] and x[0][0] == "flat" for x in h)
        for x in self.canon(k):
            h = op(h, "sel", self.unflat(x) if flat else x)
        return h

    def unflat(self, k):
        """The mask over (rows, slots) that a flattened mask stands for."""
        if not isinstance(k, tuple) or not k:
            return k
        if k[0] == "flatten":
            return self.unflat(k[1])
        if k[0] in ("cond", "not"):
            return (k[0],) + tuple(self.unflat(x) for x in k[1:])
        d = self.definition(k) if k[0] == "e" else None
        if d is not None and d[0] in ("pflatten", "pravel", "flatten", "ravel"):
            return self.unflat(d[1])
        return k

    # -- transfer --------------------------------------------------------------------------
    def put(self, v, rows, cols, pure):
        if rows is None and cols is None:
            return v.with_f(al=None) if "al" in v.f else v
        self.count += 1
        return v.with_f(al=(rows, cols, bool(pure)))

    def post(self, I, kind, v, a, k):
        v = getattr(self, "p_" + kind)(v, a, k)
        A = al(v)
        if self.touched and A is not None and A[2]:
            for x in self.flatargs(a):
                if x.mem & self.touched:
                    return v.with_f(al=(A[0], A[1], False))
        return v

    def flatargs(self, a, depth=0):
        for x in a:
            if isinstance(x, V):
                yield x
                if x.elts is not None and depth < 2:
                    yield from self.flatargs(x.elts, depth + 1)
            elif isinstance(x, (list, tuple)) and depth < 2:
                yield from self.flatargs(x, depth + 1)

    # -- renumbering -------------------------------------------------------------------------
    def is_marker(self, v):
        """A number of sites, or the number that stands for 'no neighbor'."""
        if v.f.get("lenof") is not None:
            return True

        def leaf(k, depth=0):
            if not isinstance(k, tuple) or depth > 6:
                return False
            if k[0] in ("len", "lenh") or k[0] == "c" or k[0] == "fld" and "invalid" in str(k[2]):
                return True
            d = self.definition(k) if k[0] == "e" else None
            return d is not None and all(leaf(x, depth + 1) for x in d[1:] if isinstance(x, tuple))
        return leaf(self.I.vn_of(v))

    def listen(self, I, ev, st):
        if ev.kind == "write" and ev.obj in st.heap and st.heap[ev.obj].kind == "buf":
            aug = isinstance(ev.info, tuple) and len(ev.info) > 2 and ev.info[2]
            if aug or ev.val is None or ev.val.mem or not self.is_marker(ev.val) and self.in_loop(ev):
                self.touched.add(ev.obj)

    def in_loop(self, ev):
        if ev.node is None or not ev.stack:
            return True
        return any(isinstance(n, (ast.For, ast.While)) and any(x is ev.node for x in ast.walk(n)) for n in ast.walk(ev.stack[-1][0].node))

    def renumbered(self, v):
        A = al(v)
        return A is None or not A[2] or bool(v.mem & self.touched)

    def plain(self, v, *xs):
        """Elementwise operation."""
        als = [al(x) for x in xs if al(x) is not None]
        if not als or any(x[:2] != als[0][:2] for x in als[1:]):
            return self.put(v, None, None, False)
        return self.put(v, als[0][0], als[0][1], False)

    def revn(self, v, name, st, *parts):
        """A value number for a deterministic operation on identified operands."""
        if v.f.get("vn", ("v",))[0] != "v" or not v.mem:
            return v
        ks = tuple(p if isinstance(p, (str, bool)) else self.key(p, st) for p in parts)
        if None in ks:
            return v
        return v.with_f(vn=self.I.intern(name, *ks))

    def p_binop(self, v, a, k):
        if self.on_add is not None and isinstance(a[0], ast.Add):
            self.on_add(*a)
        o, x, y, node, st = a[:5]
        if v.elts is not None or not v.mem:
            return v
        v = self.revn(v, "pbin" + type(o).__name__, st, x, y)
        return self.plain(v, x, y)

    def p_compare(self, v, a, k):
        o, x, y, node, st = a[:5]
        v = self.revn(v, "pcmp" + type(o).__name__, st, x, y)
        return self.plain(v, x, y)

    def p_unary(self, v, a, k):
        o, x, node, st = a[:4]
        v = self.revn(v, "pun" + type(o).__name__, st, x)
        return self.plain(v, x)

    def p_attr(self, v, a, k):
        b, attr, st, node = a[:4]
        A = al(b)
        if attr == "T":
            v = self.revn(v, "pT", st, b)
            return self.put(v, A[1], A[0], A[2]) if A else v
        if attr == "shape":
            kb = self.key(b, st)
            if v.elts is None and A is not None:
                return v.with_f(shapeof=A)
            if v.elts is not None and A is not None:
                els = tuple(self.length(e, A[i]) if i < 2 else e for i, e in enumerate(v.elts))
                return v.clone(elts=els)
            return v
        if attr in ("real", "imag", "flat", "base"):
            return v
        return v

    def p_item(self, v, a, k):
        b, key = a[:2]
        if b.f.get("shapeof") is not None and key.const in (0, 1) and not isinstance(key.const, bool):
            return self.length(v, b.f["shapeof"][key.const])
        return v

    def length(self, v, h):
        """The number of rows or columns with history h."""
        if h is None:
            return v
        if v.f.get("vn", ("v",))[0] in ("v", "len", "e"):
            v = v.with_f(vn=("lenh", h))
        return v.with_f(lenof=h)

    def p_builtin(self, v, a, k):
        name, args = a[0], a[1]
        st = a[3]
        if name == "len" and args and al(args[0]) is not None:
            return self.length(v, al(args[0])[0])
        if name == "sorted" and args and v.mem and self.key(args[0], st) is not None:
            v = v.with_f(vn=self.I.intern("sorted", self.key(args[0], st)))
        if name in ("list", "tuple") and args and al(args[0]) is not None and v.mem:
            A = al(args[0])
            return self.put(v, A[0], A[1], A[2])
        return v

    def p_kd(self, v, a, k):
        name, m, args, kw, st, node = a[:6]
        if name != "query" or v.elts is None:
            return v
        x = args[0] if args else kw.get("x")
        A = al(x)
        if A is None:
            return v
        base = frozenset([(("kd", node.lineno, len(self.I.stack)),)])
        return v.clone(elts=tuple(self.put(e, A[0], base, True) for e in v.elts))

    def p_index(self, v, a, k):
        b, key, st, node = a[:4]
        I = self.I
        A = al(b)
        if A is None and self.anon and b.mem and not b.prim:
            A = (frozenset([(("anon",),)]), None, True)
        items = index_items(I, key)
        kinds = [classify_index(I, x, st) if I.vn_of(x) not in self.masks else "fancy" for x in items]
        if v.mem and any(q == "fancy" for q in kinds):
            isb = any(x.f.get("dt") == "bool" for x, q in zip(items, kinds) if q == "fancy")
            b0 = b.f.get("dt") == "bool"
            ks = self.key(b, st), self.key(key, st)
            if None not in ks and v.f.get("vn", ("v",))[0] == "v" or len(items) == 1 and not isb and not b0 and None not in ks:
                v = v.with_f(vn=I.intern("pidx", ks[0], ks[1], b0 or len(items) > 1))
        elif v.mem and v.f.get("vn", ("v",))[0] == "v":
            v = self.revn(v, "pview", st, b, key)
        if A is None:
            if len(items) == 1 and kinds[0] == "fancy" and al(items[0]) is not None and items[0].f.get("dt") != "bool":
                B = al(items[0])
                return self.put(v, B[0], B[1], False)  # lookup in a table
            return self.put(v, None, None, False)
        axes = [A[0], A[1]]
        out, i, fancies = [], 0, 0
        for n, (x, q) in enumerate(zip(items, kinds)):
            cur = axes[i] if i < 2 else None
            if q == "new":
                out.append(None)
                continue
            if q == "ellipsis":
                if n == len(items) - 1:
                    break
                return self.put(v, None, None, False)
            if q == "slice":
                sl = x.fn[0][1:4]
                if all(y is None or y.isnone for y in sl):
                    out.append(cur)
                else:
                    kk = self.key(x, st)
                    out.append(op(cur, "sl", kk) if kk is not None else None)
                i += 1
            elif q == "int":
                i += 1
            elif q == "fancy":
                fancies += 1
                kk = self.key(x, st)
                ra = self._rank(x, st)
                if x.f.get("dt") == "bool" and ra == 2:
                    r = self.sel(frozenset((("flat", p, c),) for p in axes[0] for c in axes[1]), kk) if i == 0 and None not in axes and kk is not None else None
                    return self.put(v, r, None, A[2])
                if len([q2 for q2 in kinds if q2 == "fancy"]) == 2 and i == 0 and n == 0:
                    # rows paired with a permutation of the slots of each row
                    j = items[1]
                    kj = self.key(j, st)
                    if self._rank(x, st) == 2 and kinds[1] == "fancy" and self._rank(j, st) == 2 and kj is not None:
                        return self.put(v, axes[0], op(axes[1], "perm", self.canon(kj)[0]), A[2])
                    return self.put(v, None, None, False)
                if ra == 1 and fancies == 1:
                    out.append(self.sel(cur, kk))
                elif ra == 2 and len(items) == 1 and al(x) is not None:
                    B = al(x)
                    return self.put(v, B[0], B[1], False)
                else:
                    return self.put(v, None, None, False)
                i += 1
            else:
                return self.put(v, None, None, False)
        out += axes[i:2]
        out = (out + [None, None])[:2]
        return self.put(v, out[0], out[1], A[2])

    def _rank(self, x, st):
        ax = x.f.get("ax")
        if ax is not None:
            return len(ax)
        A = al(x)
        if A is not None:
            return 2 if A[1] is not None else 1
        if x.elts is not None or not x.mem:
            return 1
        if any(st.heap[m].kind == "list" for m in x.mem if m in st.heap):
            return 1
        return None

    def p_method(self, v, a, k):
        name, b, args, kw, st, node = a[:6]
        return self.func(v, name, [b] + list(args), kw, st, node, method=True)

    def p_ext(self, v, a, k):
        name, args, kw, st, node = a[:5]
        if name in ("copy.deepcopy", "copy.copy"):
            return v
        if name == "client.callback":
            self.masks.add(("cb", node.lineno))
            return v.with_f(vn=("cb", node.lineno), dt="bool", ax=(("n", ("cb", node.lineno)),))
        if not name.startswith("numpy."):
            return v
        return self.func(v, name[6:], list(args), kw, st, node)

    def func(self, v, fn, args, kw, st, node, method=False):
        I = self.I
        a0 = args[0] if args else None
        A = al(a0)
        if fn in ("view",) and method:
            return v
        if fn == "unique":
            idx = I.intern("uidx", self.key(a0, st)) if a0 is not None and self.key(a0, st) is not None else None
            axis = kw.get("axis")
            if idx is None or axis is not None and axis.const != 0:
                return v
            rows = self.sel(A[0], idx) if A else None
            if v.elts is not None and "return_index" in kw and len(v.elts) >= 2:
                els = list(v.elts)
                els[0] = self.put(els[0], rows, None, False)
                els[1] = els[1].with_f(vn=idx, al=None)
                return v.clone(elts=tuple(els))
            return self.put(v, rows, None, False) if v.mem else v
        if v.elts is not None or not v.mem:
            return v
        if fn in ("argsort", "lexsort", "flatnonzero", "searchsorted", "isin", "round", "around", "abs", "astype", "copy", "array", "asarray", "logical_not", "isfinite", "any", "all", "min", "max", "sum", "count_nonzero", "flatten", "ravel"):
            v = self.revn(v, "p" + fn, st, *[x for x in args] + [kw[q] for q in sorted(kw) if q != "dtype"])
        if fn == "flatnonzero" and a0 is not None and self.key(a0, st) is not None:
            v = v.with_f(vn=I.intern("nz", self.key(a0, st), 0))
        if fn in KEEP or fn in ("atleast_1d",):
            if fn in ("atleast_2d", "atleast_1d") and A is not None and self._rank(a0, st) == 1 and fn == "atleast_2d":
                return self.put(v, None, A[0], A[2])
            if A is None and fn in ("array", "asarray") and a0 is not None and a0.mem:
                g = self.grown(a0, st)
                if g is not None:
                    return self.put(v, frozenset([(g,)]), None, True)
                if len(a0.mem) == 1 and not a0.prim and st.heap[next(iter(a0.mem))].kind == "list":
                    v = v.with_f(fromlist=next(iter(a0.mem)))
            return self.put(v, *(A[0], A[1], A[2] and fn in PURE) if A else (None, None, False))
        if fn in ("zeros", "ones", "full", "empty"):
            return v.with_f(fill=True, al=None)
        if fn in BINARY:
            return self.plain(v, *args)
        if fn in REDUCE:
            B = bindargs(args, kw, ["a", "axis"])
            ax = B.get("axis")
            if A is not None and ax is not None and ax.const in (1, -1) and self._rank(a0, st) == 2:
                return self.put(v, A[0], None, False)
            if A is not None and ax is not None and ax.const == 0:
                return self.put(v, A[1], None, False)
            return self.put(v, None, None, False)
        if fn == "delete":
            B = bindargs(args, kw, ["arr", "obj", "axis"])
            ax, ob = B.get("axis"), B.get("obj")
            kk = self.key(ob, st) if ob is not None else None
            o_ = ("sl", ("sl", ("c", "int", 1), "-", "-")) if ob is not None and ob.const == 0 and ob.const is not False else ("sel", self.neg(kk)) if ob is not None and ob.f.get("dt") == "bool" else self.removal(kk)
            if A is not None and A[0] is not None and any(x[0] and x[0][0] == "flat" for x in A[0]) and o_[0] == "sel":
                o_ = ("sel", self.unflat(o_[1]))
            if A is not None and ax is not None and kk is not None and ax.const == 0:
                return self.put(v, op(A[0], *o_), A[1], A[2])
            if A is not None and ax is not None and kk is not None and ax.const in (1, -1) and self._rank(a0, st) == 2:
                return self.put(v, A[0], op(A[1], *o_), A[2])
            if A is not None and ax is None and self._rank(a0, st) == 1 and kk is not None:
                return self.put(v, op(A[0], *o_), None, A[2])
            return self.put(v, None, None, False)
        if fn in ("argsort", "sort") and A is not None:
            B = bindargs(args, kw, ["a", "axis"])
            ax = B["axis"].const if B.get("axis") is not None else -1
            two = A[1] is not None or self._rank(a0, st) == 2
            if two and ax in (1, -1):
                kk = self.order(a0, st)
                return self.put(v, A[0], op(A[1], "perm", kk) if fn == "sort" and kk is not None else frozenset([(("order",),)]) if fn == "argsort" else None, A[2] and fn == "sort")
            if fn == "sort" and not two:
                kk = self.order(a0, st)
                return self.put(v, op(A[0], "sel", kk) if kk is not None else None, None, A[2])
            if fn == "sort" and two and ax == 0:
                return self.put(v, op(A[0], "sort0"), A[1], A[2])
            if fn == "argsort" and not two:
                return self.put(v, None, None, False)
            return self.put(v, None, None, False)
        if fn in ("searchsorted", "digitize", "interp"):
            x = args[1] if fn == "searchsorted" and len(args) > 1 else kw.get("v") if fn == "searchsorted" else a0
            X = al(x)
            return self.put(v, *(X[0], X[1], False) if X else (None, None, False))
        if fn == "repeat":
            n = args[1] if len(args) > 1 else kw.get("repeats")
            if A is not None and A[0] is not None and self._rank(a0, st) == 1 and n is not None and n.f.get("lenof") is not None:
                return self.put(v, frozenset((("flat", r, c),) for r in A[0] for c in n.f["lenof"]), None, False)
            return self.put(v, None, None, False)
        if fn in ("append", "concatenate", "vstack", "hstack", "r_"):
            if fn == "append":
                parts, ax = args[:2], (args[2] if len(args) > 2 else kw.get("axis"))
            else:
                parts = self._parts(a0, st)
                ax = args[1] if len(args) > 1 else kw.get("axis")
            if parts is None or len(parts) < 2:
                return self.put(v, None, None, False)
            als = [al(p) for p in parts]
            r1 = all(self._rank(p, st) == 1 for p in parts)
            i = 0 if fn == "vstack" else (1 if not r1 else 0) if fn == "hstack" else 0 if (ax is None and (fn != "append" or r1)) else ax.const if ax is not None else None
            if i == 0:
                if any(x is None or x[0] is None for x in als):
                    return self.put(v, None, als[0][1] if als[0] and als[0][1] is not None and all(x is not None and x[1] == als[0][1] for x in als) else None, False)
                rows = frozenset([(("cat",) + tuple(x[0] for x in als),)])
                cols = als[0][1] if all(x[1] == als[0][1] for x in als) else frozenset([(("ccat",) + tuple(x[1] for x in als),)]) if all(x[1] is not None for x in als) else None
                return self.put(v, rows, cols, all(x[2] for x in als)).with_f(catof=tuple((x, p_.mem) for x, p_ in zip(als, parts)))
            if i in (1, -1):
                known = [n for n, x in enumerate(als) if x is not None]
                fill = [n for n, p_ in enumerate(parts) if p_.f.get("fill")]
                rs = {als[n][0] for n in known}
                rows = rs.pop() if len(rs) == 1 else None
                cols = None
                if len(known) == 1 and len(fill) == len(parts) - 1 and als[known[0]][1] is not None:
                    n = known[0]
                    cols = als[n][1]
                    if n < len(parts) - 1:
                        cols = op(cols, "ext", "after")
                    if n > 0:
                        cols = op(cols, "ext", "before")
                return self.put(v, rows, cols, als[known[0]][2] if len(known) == 1 else False)
            return self.put(v, None, None, False)
        if fn == "pad":
            if A is None:
                return self.put(v, None, None, False)
            w = args[1] if len(args) > 1 else kw.get("pad_width")
            ws = self._parts(w, st)
            if ws and len(ws) >= 2 and all(self._parts(x, st) for x in ws[:2]):
                (a_, b_), (c_, d_) = ([self.key(y, st) for y in self._parts(x, st)[:2]] for x in ws[:2])
                zero = ("c", "int", 0)
                rows = A[0] if (a_, b_) == (zero, zero) else op(A[0], "pad", a_, b_)
                cols = A[1] if (c_, d_) == (zero, zero) else op(A[1], "ext", "after") if c_ == zero else op(A[1], "ext", "before") if d_ == zero else None
                return self.put(v, rows, cols, A[2])
            return self.put(v, None, None, False)
        if fn in ("take", "compress"):
            B = bindargs(args, kw, ["a", "indices", "axis"]) if fn == "take" or method else bindargs(args, kw, ["indices", "a", "axis"])
            X = al(B.get("a"))
            ax, ix = B.get("axis"), B.get("indices")
            kk = self.key(ix, st) if ix is not None else None
            if X is None or ax is None or kk is None:
                if X is None and ix is not None and al(ix) is not None:
                    Y = al(ix)
                    return self.put(v, Y[0], Y[1], False)
                return self.put(v, None, None, False)
            if ax.const == 0:
                return self.put(v, self.sel(X[0], kk), X[1], X[2])
            if ax.const == 1:
                return self.put(v, X[0], self.sel(X[1], kk), X[2])
            return self.put(v, None, None, False)
        if fn == "take_along_axis":
            B = bindargs(args, kw, ["arr", "indices", "axis"])
            kk = self.key(B["indices"], st) if "indices" in B else None
            if "indices" in B and al(B["arr"]) is not None:
                # an index array with a further axis added for vector-valued slots
                d = self.definition(kk) if kk is not None else None
                if d is not None and d[0] in ("idx", "pview") and d[1] is not None:
                    kk = d[1]
            if A is not None and kk is not None and B.get("axis") is not None and B["axis"].const in (1, -1):
                return self.put(v, A[0], op(A[1], "perm", self.canon(kk)[0]), A[2])
            return self.put(v, None, None, False)
        if fn in ("flatten", "ravel"):
            o_ = args[1] if len(args) > 1 else kw.get("order")
            if A is None or A[0] is None or o_ is not None and o_.const not in ("C", "F"):
                return self.put(v, None, None, False)
            if o_ is not None and o_.const == "F" and A[1] is not None:
                return self.put(v, frozenset((("flat", c, r),) for r in A[0] for c in A[1]), None, A[2])
            if A[1] is None:
                return self.put(v, A[0], None, A[2])
            return self.put(v, frozenset((("flat", r, c),) for r in A[0] for c in A[1]), None, A[2])
        if fn == "reshape":
            B = bindargs(args, kw, ["a", "newshape", "order"])
            B.setdefault("newshape", kw.get("shape"))
            ns = B["newshape"]
            dims = [x.const for x in self._parts(ns, st) or ()] if ns is not None and ns.const is NC else [ns.const] if ns is not None else []
            if A is not None and A[0] is not None and A[1] is not None and dims == [-1]:
                return self.put(v, frozenset((("flat", r, c),) for r in A[0] for c in A[1]), None, A[2])
            parts = self._parts(a0, st)
            if A is None and parts and dims == [len(parts), -1]:
                known = [al(x) for x in parts if al(x) is not None]
                rs, cs = ({x[i] for x in known if x[i] is not None} for i in (0, 1))
                if len(rs) == 1 and len(cs) == 1:
                    (rs,), (cs,) = rs, cs
                    return self.put(v, None, frozenset((("flat", r, c),) for r in rs for c in cs), False)
            return self.put(v, None, None, False)
        if fn in ("transpose", "swapaxes"):
            if A is not None and self._rank(a0, st) == 2:
                return self.put(v, A[1], A[0], A[2])
            return self.put(v, None, None, False)
        if fn == "arange":
            n = args[0] if len(args) == 1 else None
            if n is not None and n.f.get("lenof") is not None:
                return self.put(v, n.f["lenof"], None, True)
            return self.put(v, None, None, False)
        if fn == "tile":
            B = bindargs(args, kw, ["A", "reps"])
            reps = self._parts(B.get("reps"), st)
            if A is not None and self._rank(a0, st) == 1 and reps and len(reps) == 2 and reps[1].const == 1:
                return self.put(v, reps[0].f.get("lenof"), A[0], A[2])
            return self.put(v, None, None, False)
        if fn in ("column_stack", "c_"):
            parts = self._parts(a0, st)
            als = [al(x) for x in parts or ()]
            rs = {x[0] for x in als if x is not None and x[0] is not None}
            if len(rs) == 1:
                return self.put(v, rs.pop(), None, False)
            return self.put(v, None, None, False)
        if fn == "stack":
            parts = self._parts(a0, st)
            als = [al(x) for x in parts or ()]
            ax = args[1] if len(args) > 1 else kw.get("axis")
            rs = {x[0] for x in als if x is not None and x[0] is not None}
            if ax is not None and ax.const in (1, -1) and len(rs) == 1:
                return self.put(v, rs.pop(), None, False)
            if parts and als and (ax is None or ax.const == 0) and len(rs) == 1:
                return self.put(v, None, rs.pop(), False)
            return self.put(v, None, None, False)
        if fn == "flip":
            B = bindargs(args, kw, ["m", "axis"])
            if A is not None and B.get("axis") is not None and B["axis"].const == 0:
                return self.put(v, op(A[0], "rev"), A[1], A[2])
            return self.put(v, None, None, False)
        return self.put(v, None, None, False)

    def _parts(self, v, st):
        if v is None:
            return None
        if v.elts is not None and not v.mem:
            return list(v.elts)
        if len(v.mem) == 1:
            o = st.heap.get(next(iter(v.mem)))
            if o is not None and o.kind == "list" and o.elts is not None:
                return list(o.elts)
        return None

    def grown(self, v, st):
        """Base of an array made from a list collected in a dictionary of lists."""
        if v.f.get("fromdict"):
            return ("list",)
        return None
