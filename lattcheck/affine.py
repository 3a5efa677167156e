"""Positions and displacements: how a value changes when everything is moved.

The fact "tw" is the weight of a value under a common translation of all sites: 1 for a position, 0 for a
displacement, size or distance, "poly" for zeros.  Sums add weights, a midpoint has weight 1 again.  A translation
vector that was computed from a value of weight w has weight ("i", w); it stands for a lattice point or for a
displacement, so the weight is only used to compare translation vectors.  A multiple of a position by a factor that
the caller chooses freely has weight "frac", an array made of positions and displacements "mixed".
"""
import ast
from fractions import Fraction

from .loader import ClassInfo
from .models import bindargs
from .values import JOIN, NC, V, join_deg

JOIN["tw"] = join_deg

KEEP = {"array", "asarray", "asanyarray", "ascontiguousarray", "copy", "atleast_1d", "atleast_2d", "round", "around", "min", "max", "amin", "amax", "nanmin", "nanmax", "mean", "average", "median",
        "sort", "unique", "reshape", "ravel", "flatten", "squeeze", "transpose", "swapaxes", "take", "compress", "delete", "repeat", "tile", "flip", "roll", "expand_dims", "broadcast_to", "item", "tolist", "view", "float64", "nan_to_num"}
ZERO = {"ptp", "std", "var", "diff", "argsort", "argmin", "argmax", "isin", "searchsorted", "nonzero", "flatnonzero", "count_nonzero", "any", "all", "digitize", "shape", "cross"}
MIX = {"concatenate", "append", "vstack", "hstack", "stack", "column_stack", "where", "minimum", "maximum", "linspace", "clip", "fmin", "fmax"}
PRODUCT = {"dot", "matmul", "inner", "einsum", "tensordot", "outer"}


def isnum(x):
    return isinstance(x, (int, Fraction)) and not isinstance(x, bool)


def soft(w):
    return "poly" if isinstance(w, tuple) else w


def ialg(o, x, y, wx, wy):
    """Weight of a sum or multiple of translation vectors."""
    a, b = (w[1] if isinstance(w, tuple) else 0 if w == 0 or v.const is not NC and not v.mem else None for w, v in ((wx, x), (wy, y)))
    if isinstance(o, (ast.Add, ast.Sub)) and a is not None and b is not None:
        return ("i", a + b if isinstance(o, ast.Add) else a - b)
    if isinstance(o, (ast.Mult, ast.Div, ast.FloorDiv)):
        for w, c in ((wx, y.const if not y.mem else NC), (wy, x.const if not x.mem and isinstance(o, ast.Mult) else NC)):
            if isinstance(w, tuple) and c is not NC and isinstance(c, (int, float)) and not isinstance(c, bool) and c:
                return ("i", w[1] * Fraction(c if isinstance(o, ast.Mult) else 1 / c).limit_denominator(64))
    return None


def same(ws):
    out = "poly"
    for w in ws:
        if w is None:
            return None
        out = join_deg(out, w)
        if out is None:
            return None
    return out


class Affine:
    def __init__(self, I, report=True):
        self.I = I
        self.on = report
        self.count = 0
        I.hooks["post"] = self.post
        I.hooks["field_read"] = self.read
        I.hooks["store_facts"] = lambda v, st: {"tw": self.w(v, st)}
        I.listeners.append(self.listen)

    # attributes whose meaning is fixed: taken for granted where they are read, checked where they are stored
    FIELDS = {("LatticeData", "positions"): 1, ("LatticeData", "distvals"): 0, ("Lattice", "shape"): 0, ("Lattice", "pos"): 1,
              ("LatticeData", "indices"): ("i", 1)}

    def meaning(self, m, attr, st):
        o = st.heap.get(m)
        c = getattr(o, "cls", None)
        for k in c.mro() if isinstance(c, ClassInfo) else ():
            if (k.name, attr) in self.FIELDS:
                return self.FIELDS[k.name, attr]
        return None

    def read(self, I, m, attr, v, st, node):
        w = self.meaning(m, attr, st)
        if w is not None and (v.mem or v.elts is not None) and not v.isnone:
            return v.with_f(tw=w)
        return None

    def listen(self, I, ev, st):
        if ev.kind == "write" and isinstance(ev.field, str) and ev.val is not None:
            w = self.meaning(ev.obj, ev.field, st)
            got = self.w(ev.val, st) if w is not None else None
            if isnum(w) and isnum(got) and got != w:
                self.say(ev.node, f"'{ev.field}', which is {self.name(w)}, is set to {self.name(got)}")
        if ev.kind == "write" and ev.field == "[]" and isinstance(ev.info, tuple) and ev.info[0] is not None and not ev.info[2]:
            w, x = self.w(ev.info[0], st), ev.val
            if isnum(w) and w != 0 and x is not None and x.const is not NC and not x.mem and isinstance(x.const, (int, float)) and abs(x.const) < 1e300:
                self.say(ev.node, f"a coordinate of {self.name(w)} is set to {x.const}, which stays where it is when the lattice is moved")

    def w(self, v, st):
        if v is None:
            return None
        if v.const is not NC and not v.mem:
            c = v.const
            if isinstance(c, (int, float)) and not isinstance(c, bool):
                return "poly" if c == 0 or c != c or c in (float("inf"), float("-inf")) else v.f.get("tw", 0)
            return None
        c = self.I.content(v, st)
        if "tw" in c.f:
            return c.f["tw"]
        return None

    def parts(self, v, st):
        """Weights of the rows an array is made of."""
        xs = v.elts or next((st.heap[m].elts for m in v.mem if m in st.heap and st.heap[m].elts), None) if v is not None else None
        return list(xs or ()), [self.w(x, st) for x in xs or ()]

    def put(self, v, w):
        if w in (None, "frac", "mixed") and str(v.f.get("dt")).startswith(("int", "uint")):
            w = "poly"  # a translation vector stands for a displacement or for a lattice point
        if w is None:
            return v.with_f(tw=None) if "tw" in v.f else v
        if isinstance(w, Fraction) and w.denominator == 1:
            w = int(w)
        self.count += 1
        return v.with_f(tw=w)

    def post(self, I, kind, v, a, k):
        fn = getattr(self, "p_" + kind, None)
        if fn is None:
            return v
        old = v.f.get("tw")
        v = fn(v, a, k)
        if v.elts is not None:
            for x in v.elts:
                self.keep(x, None, a)
        else:
            self.keep(v, old, a)
        return v

    def keep(self, v, old, a):
        """Note the weight with the array, so that it survives joins of references."""
        w = v.f.get("tw")
        if w is not None and w == old or not v.mem:
            return
        st = next((x for x in a if hasattr(x, "heap")), None)
        for m in v.mem:
            o = st.heap.get(m) if st is not None else None
            if o is None or o.kind != "buf" or o.init is None:
                continue
            t = join_deg(o.init["tw"], w) if "tw" in o.init else w
            if t is None and "tw" not in o.init:
                continue
            if o.init.get("tw") != t or "tw" not in o.init:
                o = o.clone()
                o.init = {**o.init, "tw": t}
                st.heap[m] = o

    def say(self, node, text):
        if self.on:
            self.I.report("affine", node, text)

    NAMES = {0: "a displacement or size", 1: "a position"}

    def name(self, w):
        return self.NAMES.get(w, f"a sum of positions (weight {w})")

    def agree(self, wa, wb, node, what):
        if isnum(wa) and isnum(wb) and wa != wb:
            self.say(node, f"{what} {self.name(wa)} with {self.name(wb)}")
            return False
        return True

    def p_binop(self, v, a, k):
        o, x, y, node, st = a[:5]
        wx, wy = self.w(x, st), self.w(y, st)
        if isinstance(wx, tuple) or isinstance(wy, tuple):
            r = ialg(o, x, y, wx, wy)
            if r is not None:
                return self.put(v, r)
            wx, wy = soft(wx), soft(wy)
        if isinstance(o, (ast.Add, ast.Sub)):
            if "mixed" in (wx, wy) or wx == wy == "frac":
                return self.put(v, None)
            if "frac" in (wx, wy):
                return self.put(v, "frac" if wx is not None and wy is not None else None)
            if wx is None or wy is None:
                return self.put(v, None)
            s = 1 if isinstance(o, ast.Add) else -1
            if wx == "poly" or wy == "poly":
                # zeros stand for the origin or for no displacement
                other, z = (wy, x) if wx == "poly" else (wx, y)
                if other == "poly":
                    return self.put(v, "poly")
                if other == 0 or s < 0 and (z.mem or z.elts is not None):
                    return self.put(v, None)
                return self.put(v, other if wy == "poly" else s * other)
            return self.put(v, wx + s * wy)
        if isinstance(o, ast.Mult):
            for p, q, wp, wq in ((x, y, wx, wy), (y, x, wy, wx)):
                if isnum(wq) and p.const is not NC and isinstance(p.const, (int, float)) and not p.mem and p.const == p.const and abs(p.const) < 1e9:
                    return self.put(v, wq * Fraction(p.const).limit_denominator(64))
            if "poly" in (wx, wy):
                return self.put(v, "poly")
            if self.free(x) and isnum(wy) and wy or self.free(y) and isnum(wx) and wx:
                return self.put(v, "frac")
            return self.put(v, 0 if wx == 0 and wy == 0 else None)
        if isinstance(o, ast.Div):
            if isnum(wx) and y.const is not NC and isinstance(y.const, (int, float)) and not y.mem and y.const:
                return self.put(v, wx * Fraction(1 / y.const).limit_denominator(64))
            return self.put(v, 0 if wx in (0, "poly") and wy == 0 else None)
        if isinstance(o, ast.MatMult):
            return self.put(v, self.product(wx, wy))
        if isinstance(o, ast.Pow):
            self.origin("a power", wx, node)
            return self.put(v, 0 if wx == 0 else None)
        return self.put(v, None)

    def free(self, v):
        return bool(v.deps) and all(str(d).endswith("fractions") for d in v.deps)

    def origin(self, fn, w, node):
        if isinstance(w, tuple):
            w = w[1]
        if isnum(w) and w != 0:
            self.say(node, f"{fn} measures {self.name(w)} from the origin of the coordinates")

    def rows(self, xs, st, node):
        """Rows of zeros among positions stand for the origin of the coordinates."""
        ws = [self.w(x, st) for x in xs]
        for x in xs:
            ax = x.f.get("ax")
            if x.f.get("tz") and len(x.mem) == 1 and ax and ax[0] != 0 and all(st.heap[m].st is None for m in x.mem if m in st.heap):
                for w in ws:
                    if isnum(w) and w != 0:
                        self.say(node, f"a row of zeros is put among positions: it stays where it is when the lattice is moved")

    def product(self, *ws):
        if sum(isinstance(w, tuple) for w in ws) == 1 and all(w == 0 or isinstance(w, tuple) for w in ws):
            return next(w for w in ws if isinstance(w, tuple))
        ws = [soft(w) for w in ws]
        if None in ws:
            return None
        if "poly" in ws:
            return "poly"
        if all(w == 0 for w in ws):
            return 0
        if "mixed" in ws or "frac" in ws:
            return None
        rest = [w for w in ws if w != 0]
        return rest[0] if len(rest) == 1 else None

    def p_unary(self, v, a, k):
        o, x, node, st = a[:4]
        w = self.w(x, st)
        if isinstance(o, ast.USub) and isnum(w):
            return self.put(v, -w)
        return v

    def p_compare(self, v, a, k):
        o, x, y, node, st = a[:5]
        if isinstance(o, (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Eq, ast.NotEq)):
            self.agree(self.w(x, st), self.w(y, st), node, "comparison of")
        return v

    def p_attr(self, v, a, k):
        b, attr, st, node = a[:4]
        if attr in ("T", "real", "flat"):
            return self.put(v, self.w(b, st))
        return v

    def p_index(self, v, a, k):
        b, key, st, node = a[:4]
        if v.elts is not None or any(m in st.heap and st.heap[m].kind != "buf" for m in b.mem):
            return v
        rows = b.f.get("twr")
        if rows and self.w(b, st) == "mixed":
            k0 = key.elts[0] if key.elts else key
            if k0.const is not NC and isinstance(k0.const, int) and not isinstance(k0.const, bool) and -len(rows) <= k0.const < len(rows):
                return self.put(v, rows[k0.const])
        return self.put(v, self.w(b, st))

    def p_kd(self, v, a, k):
        name, m, args, kw, st, node = a[:6]
        o = st.heap.get(m)
        wp = self.w(o.fields.get("__points__"), st) if o is not None else None
        if name in ("query", "query_ball_point"):
            x = args[0] if args else kw.get("x")
            self.agree(self.w(x, st), wp, node, "tree query of")
        if name == "query" and v.elts is not None and len(v.elts) == 2:
            return v.clone(elts=(self.put(v.elts[0], 0), self.put(v.elts[1], "poly")))
        return v

    def p_builtin(self, v, a, k):
        name, args, kw, st, node = a[:5]
        if name in ("max", "min"):
            return self.put(v, same([self.w(x, st) for x in args])) if args else v
        if name in ("float", "list", "tuple", "sorted", "reversed", "round"):
            return v if v.elts is not None else self.put(v, self.w(args[0], st)) if args and not v.mem else v
        if name in ("int", "abs", "sum"):
            w = self.w(args[0], st) if args else None
            if name == "abs":
                self.origin(name, w, node)
            return self.put(v, 0 if w == 0 else None) if v.elts is None else v
        return v

    def p_method(self, v, a, k):
        name, b, args, kw, st, node = a[:6]
        return self.func(v, name, [b] + list(args), kw, st, node)

    def p_ext(self, v, a, k):
        name, args, kw, st, node = a[:5]
        if name.endswith(".cdist") and len(args) > 1:
            self.agree(self.w(args[0], st), self.w(args[1], st), node, "distance of")
            return self.put(v, 0)
        if name.startswith("math.") and args:
            return self.put(v, 0 if self.w(args[0], st) == 0 else None)
        if not name.startswith("numpy."):
            return v
        return self.func(v, name[6:], list(args), kw, st, node)

    def func(self, v, fn, args, kw, st, node):
        if v.elts is not None:
            if fn == "unique" and args:
                w = self.w(args[0], st)
                return v.clone(elts=(self.put(v.elts[0], w),) + v.elts[1:])
            return v
        a0 = args[0] if args else None
        w0 = self.w(a0, st)
        if fn in ("array", "asarray", "min", "max", "amin", "amax", "stack", "vstack", "concatenate"):
            xs, ws = self.parts(a0, st)
            if fn in ("array", "asarray", "min", "max", "amin", "amax"):
                self.rows(xs, st, node)
            ints = {w[1] for w in ws if isinstance(w, tuple)}
            if len(ints) > 1:
                self.say(node, f"translation vectors of {' and of '.join(self.name(w) for w in sorted(ints))} are put together")
            if len({w for w in ws if isnum(w)}) > 1 and all(isnum(w) or w == "poly" for w in ws):
                return self.put(v, "mixed").with_f(twr=tuple(ws))
        if fn in KEEP:
            return self.put(v, w0)
        if fn in ("floor", "ceil", "rint", "fix", "trunc"):
            return self.put(v, w0)
        if fn in ZERO:
            return self.put(v, 0)
        if fn in ("zeros", "zeros_like"):
            return self.put(v, "poly").with_f(tz=True)
        if fn in ("empty", "empty_like"):
            return self.put(v, "poly")
        if fn in ("ones", "ones_like", "eye", "identity"):
            return self.put(v, 0)
        if fn == "astype":
            dt = str(v.f.get("dt"))
            return self.put(v, w0 if "float" in dt or isinstance(w0, tuple) else ("i", w0) if isnum(w0) and dt.startswith("int") else "poly" if w0 in (0, "poly") else None)
        if fn in ("abs", "absolute", "square", "linalg.norm"):
            self.origin(fn, w0, node)
        if fn in ("minimum", "maximum", "fmin", "fmax", "clip") and isinstance(w0, tuple) and w0[1] != 0 and any(x.const is not NC and isinstance(x.const, (int, float)) for x in args[1:]):
            self.say(node, f"{fn} compares translation vectors of {self.name(w0[1])} with a constant")
        w0 = soft(w0)
        if fn in ("full", "full_like"):
            B = bindargs(args, kw, ["shape", "fill_value"])
            return self.put(v, self.w(B.get("fill_value"), st))
        if fn in ("isclose", "allclose", "array_equal", "less", "greater", "less_equal", "greater_equal", "equal"):
            if len(args) > 1:
                self.agree(w0, self.w(args[1], st), node, "comparison of")
            return v
        if fn in ("add", "subtract", "multiply", "divide", "true_divide") and len(args) > 1:
            o = {"add": ast.Add, "subtract": ast.Sub, "multiply": ast.Mult}.get(fn, ast.Div)()
            return self.p_binop(v, (o, args[0], args[1], node, st), {})
        if fn in ("minimum", "maximum", "fmin", "fmax", "linspace") and len(args) > 1:
            if fn != "linspace":
                self.agree(w0, self.w(args[1], st), node, "comparison of")
            return self.put(v, same([w0, self.w(args[1], st)]))
        if fn == "where":
            return self.put(v, same([self.w(x, st) for x in args[1:3]])) if len(args) == 3 else v
        if fn == "append":
            self.rows(args[:2], st, node)
            return self.put(v, same([self.w(x, st) for x in args[:2]]))
        if fn in ("concatenate", "vstack", "hstack", "stack", "column_stack"):
            if fn in ("concatenate", "vstack", "stack") and a0 is not None:
                xs = a0.elts or next((st.heap[m].elts for m in a0.mem if m in st.heap and st.heap[m].elts), None)
                self.rows(xs or (), st, node)
            return self.put(v, w0)
        if fn in PRODUCT:
            xs = args[1:] if fn == "einsum" else args[:2]
            return self.put(v, self.product(*[self.w(x, st) for x in xs]))
        if fn == "linalg.norm":
            return self.put(v, 0)
        if fn == "linalg.inv":
            return self.put(v, 0 if w0 == 0 else None)
        if fn == "linalg.solve":
            return self.put(v, self.product(w0, self.w(args[1], st)) if len(args) > 1 else None)
        if fn in ("sum", "nansum", "prod", "abs", "absolute", "sqrt", "exp", "cos", "sin", "arange", "linalg.det", "cumsum", "sign", "square", "mod", "rad2deg", "deg2rad"):
            return self.put(v, 0 if w0 in (0, "poly") else None)
        return self.put(v, None) if "tw" in v.f and fn not in ("meshgrid",) else v


# weight of an argument by its name
WEIGHTS = {"pos": 1, "positions": 1, "points": 1, "point": 1, "r1": 1, "r2": 1, "world_coords": 1, "basis_coords": 1, "r": 1, "x": 1, "pt": 1,
           "shape": 0, "size": 0, "radius": 0, "radius_inner": 0, "radius_outer": 0, "vectors": 0, "basis": 0, "vecs": 0, "nvec": "poly", "k": 0, "delta": 0, "box": 0, "a": 0, "fractions": 0, "offset": 0, "tol": "poly", "atol": "poly", "eps": "poly"}
