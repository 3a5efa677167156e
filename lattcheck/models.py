"""Models of Python built-ins, numpy, scipy and itertools used by the interpreter."""
import ast
import math
from fractions import Fraction

from .loader import ClassInfo, FunctionInfo
from .values import CONTENT, EMPTY, NC, V, Obj, const, join, jopt, scalar, unknown, join_deg, join_rnd, join_states


# =====================================================================================
# fact arithmetic
# =====================================================================================
def posted(kind):
    """Lets a rule refine the facts of a modelled operation's result."""
    def deco(fn):
        def g(I, *a, **k):
            v = fn(I, *a, **k)
            h = I.hooks.get("post")
            if h is not None and v is not None:
                return h(I, kind, v, a, k)
            return v
        g.__name__ = fn.__name__
        g.__doc__ = fn.__doc__
        return g
    return deco


def num(d):
    return isinstance(d, (int, Fraction, float)) and not isinstance(d, bool)


def deg_unify(I, a, b, node, what):
    da, db = a, b
    if da is None or db is None:
        return None
    if num(da) and num(db) and da != db:
        I.report("deg", node, f"{what} combines a quantity of length dimension {da} with one of dimension {db}")
        return None
    return join_deg(da, db)


def deg_mul(a, b, sign=1):
    if a is None or b is None:
        if a == "poly" or (b == "poly" and sign > 0):
            return "poly"
        return None
    if a == "poly":
        return "poly"
    if b == "poly":
        return "poly" if sign > 0 else None
    a = 0 if a == "tol" else a
    b = 0 if b == "tol" else b
    return a + sign * b


WL = ("W", "L")


def lab_unify(I, x, y, node, what):
    if x == y:
        return x
    if x in WL and y in WL:
        I.report("frame", node, f"{what} aligns a world-coordinate axis with a lattice-coordinate axis")
        return "?"
    if x in WL or y in WL:
        return x if x in WL else y
    if x == 1:
        return y
    if y == 1:
        return x
    if isinstance(x, tuple) and isinstance(y, tuple):
        return "?"
    if isinstance(x, int) or isinstance(x, tuple):
        return x
    if isinstance(y, int) or isinstance(y, tuple):
        return y
    return "?"


def ax_broadcast(I, a, b, node, what):
    if a is None or b is None:
        return None
    n = max(len(a), len(b))
    a2 = (1,) * (n - len(a)) + tuple(a)
    b2 = (1,) * (n - len(b)) + tuple(b)
    return tuple(lab_unify(I, x, y, node, what) for x, y in zip(a2, b2))


def is_arr(I, v, st):
    for m in v.mem:
        o = st.heap.get(m)
        if o is not None and o.kind == "buf":
            return True
    return False


def is_list(I, v, st):
    for m in v.mem:
        o = st.heap.get(m)
        if o is not None and o.kind in ("list", "set"):
            return True
    return False


def is_seq(I, v, st):
    return v.elts is not None or is_list(I, v, st) or is_arr(I, v, st)


def axes(I, v, st, depth=0):
    """Axis labels of v seen as an array, or None."""
    if v.mem and is_arr(I, v, st):
        if all(st.heap[m].kind == "buf" for m in v.mem if m in st.heap):
            if v.prim & {"num", "int", "float", "any"} and "ax" not in v.f:
                return None
            return v.f.get("ax")
        return None
    if v.elts is not None and not v.mem:
        subs = [axes(I, e, st, depth + 1) for e in v.elts]
        if subs and all(s is not None and len(s) == len(subs[0]) for s in subs):
            rest = tuple(a if all(s[i] == a for s in subs) else "?" for i, a in enumerate(subs[0]))
            return (len(subs),) + rest
        return (0,) if not subs else None
    if v.mem and is_list(I, v, st):
        if len(v.mem) != 1 or depth > 5:
            return None
        o = st.heap[next(iter(v.mem))]
        if o.elts is not None and not o.summary:
            return axes(I, V(elts=o.elts), st, depth + 1)
        e = o.elem
        for x in o.elts or ():
            e = jopt(e, x)
        if e is None:
            return None
        s = axes(I, e, st, depth + 1)
        if s is None:
            return None
        return ("?",) + s
    if v.mem:
        return None
    if v.prim and v.prim <= {"int", "float", "num", "bool", "none"}:
        return ()
    return None


def facts_of(I, v, st):
    c = I.content(v, st)
    return c


def label_len(I, lab):
    if isinstance(lab, int):
        return const(lab)
    if lab in WL and I.dim:
        return const(I.dim)
    v = scalar("int", deg=0, sgn="+")
    if isinstance(lab, tuple):
        v.f["vn"] = ("len", lab)
        v.f["mono"] = EMPTY
    elif lab in WL:
        v.f["vn"] = ("len", "D")
    else:
        v.f["vn"] = I.fresh_vn()
    return v


def mk(I, st, node, deps, ax, f, tag="", boolean=False):
    """Fresh array (or scalar if rank 0)."""
    f = {k: x for k, x in f.items() if x is not None}
    if ax is not None:
        if len(ax) == 0:
            f.pop("ax", None)
            return V(frozenset(["bool" if boolean else "num"]), deps=deps | st.pc, f=f)
        f["ax"] = tuple(ax)
    return I.buf(st, node, deps, f, tag)


def both(I, st, v, w):
    return join(v, w)


# =====================================================================================
# operators
# =====================================================================================
@posted("binop")
def binop(I, op, a, b, node, st, inplace=False):
    deps = a.deps | b.deps
    # constants
    if a.const is not NC and b.const is not NC:
        try:
            r = _const_op(op, a.const, b.const)
            if isinstance(r, (int, float, str, bool)) and not (isinstance(r, str) and len(r) > 200):
                v = const(r, deps)
                if isinstance(r, (int, float)) and not isinstance(r, bool):
                    fa, fb = a.f.get("deg"), b.f.get("deg")
                    v = v.with_f(vn=v.f.get("vn"))
                return v
        except Exception:
            pass
    if isinstance(op, ast.Add):
        la, lb = _seqparts(I, a, st), _seqparts(I, b, st)
        if la is not None and lb is not None and not is_arr(I, a, st) and not is_arr(I, b, st):
            if la[0] is not None and lb[0] is not None:
                if a.elts is not None and b.elts is not None:
                    return V(frozenset(["tuple"]), elts=tuple(la[0]) + tuple(lb[0]), deps=deps)
                return I.mklist(st, node, list(la[0]) + list(lb[0]), deps=deps)
            e = None
            for ex, el in (la, lb):
                for x in ex or ():
                    e = jopt(e, x)
                e = jopt(e, el)
            return I.mklist(st, node, None, e, deps=deps)
    if isinstance(op, ast.Mult):
        for x, y in ((a, b), (b, a)):
            if not is_arr(I, x, st) and (x.elts is not None or is_list(I, x, st)) and not is_arr(I, y, st) and not is_list(I, y, st):
                ex, el = I.iterate(x, st, node)
                if ex is not None and y.const is not NC and isinstance(y.const, int) and len(ex) * y.const <= 64:
                    if x.elts is not None:
                        return V(frozenset(["tuple"]), elts=tuple(ex) * y.const, deps=deps)
                    return I.mklist(st, node, list(ex) * y.const, deps=deps)
                e = el
                for z in ex or ():
                    e = jopt(e, z)
                return I.mklist(st, node, None, e, deps=deps)
    if isinstance(op, ast.Mod) and "str" in a.prim:
        return scalar("str", deps)
    if "str" in a.prim and "str" in b.prim and isinstance(op, ast.Add):
        return scalar("str", deps)
    ca, cb = I.content(a, st), I.content(b, st)
    aa, ab = axes(I, a, st), axes(I, b, st)
    f = {}
    da, db = ca.f.get("deg"), cb.f.get("deg")
    ax = None
    what = type(op).__name__.lower()
    if isinstance(op, ast.MatMult):
        ax, d = contract(I, aa, ab, node, "matmul", a, b, st)
        f["deg"] = deg_mul(da, db)
        f["rnd"] = None
        return mk(I, st, node, deps, ax, f)
    if isinstance(op, (ast.Add, ast.Sub)):
        f["deg"] = deg_unify(I, da, db, node, {"add": "addition", "sub": "subtraction"}[what])
    elif isinstance(op, ast.Mult):
        f["deg"] = deg_mul(da, db)
    elif isinstance(op, (ast.Div, ast.FloorDiv)):
        f["deg"] = deg_mul(da, db, -1)
    elif isinstance(op, ast.Mod):
        f["deg"] = da
    elif isinstance(op, ast.Pow):
        if num(da) and cb.const is not NC and isinstance(cb.const, (int, float)):
            f["deg"] = da * Fraction(cb.const).limit_denominator(64)
        elif da == "poly":
            f["deg"] = "poly"
    elif isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)):
        pass
    if isinstance(op, ast.Mult) and any(x.const is not NC and x.const == 0 for x in (a, b)):
        # all zeros: no frame left
        aa, ab = [None if x is None else tuple("?" if l in WL else l for l in x) for x in (aa, ab)]
    ax = ax_broadcast(I, aa, ab, node, what)
    ra, rb = ca.f.get("rnd"), cb.f.get("rnd")
    if ra not in (None, "poly") or rb not in (None, "poly"):
        f["rnd"] = "raw" if isinstance(op, (ast.Add, ast.Sub, ast.Mult, ast.Div)) else None
    elif ra == "poly" and rb == "poly":
        f["rnd"] = "poly"
    fa, fb = a.f.get("fr"), b.f.get("fr")
    if isinstance(op, (ast.Add, ast.Sub)):
        if fa and fb and fa != fb:
            I.report("frame", node, f"{what} combines a component along a world axis with a component along a lattice axis")
        elif fa or fb:
            f["fr"] = fa or fb
    elif isinstance(op, (ast.Mult, ast.Div)) and bool(fa) != bool(fb):
        f["fr"] = fa or fb
    for h in I.domains:
        h.binop(I, op, a, b, ca, cb, f, node, st)
    f["vn"] = I.intern("bin", what, I.vn_of(a), I.vn_of(b))
    if isinstance(op, (ast.Add, ast.Mult, ast.BitAnd, ast.BitOr)) and f["vn"][0] == "e":
        va, vb = sorted([repr(I.vn_of(a)), repr(I.vn_of(b))])
        f["vn"] = I.intern("binc", what, va, vb)
    arr = is_arr(I, a, st) or is_arr(I, b, st)
    if not arr and not (is_list(I, a, st) or is_list(I, b, st)):
        p = _num_prim(op, a, b)
        if "any" in a.prim or "any" in b.prim:
            p = "any"
        f = {k: x for k, x in f.items() if x is not None}
        return V(frozenset([p]), deps=deps | st.pc, f=f)
    f["dt"] = promote(I, a, b, op, st)
    scal = (a.prim or b.prim) and "ax" not in a.f
    r = mk(I, st, node, deps, ax, f, tag="bin")
    if ax is None and _maybe_scalar(I, a, st) and _maybe_scalar(I, b, st):
        r = r.clone(prim=r.prim | {"num"})
    return r


def _maybe_scalar(I, v, st):
    if not v.mem and v.elts is None:
        return True
    return bool(v.prim - {"none"})


def _num_prim(op, a, b):
    pa, pb = a.prim, b.prim
    if pa <= {"int", "bool"} and pb <= {"int", "bool"} and pa and pb:
        if isinstance(op, ast.Div):
            return "float"
        if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)) and pa == {"bool"} and pb == {"bool"}:
            return "bool"
        return "int"
    if pa <= {"int", "float", "bool"} and pb <= {"int", "float", "bool"}:
        return "float"
    return "num"


def _seqparts(I, v, st):
    if v.elts is not None and not v.mem:
        return list(v.elts), None
    if v.mem and all(m in st.heap and st.heap[m].kind == "list" for m in v.mem):
        return I.iterate(v, st, None)
    return None


def _const_op(op, x, y):
    t = type(op)
    if t is ast.Add:
        return x + y
    if t is ast.Sub:
        return x - y
    if t is ast.Mult:
        return x * y
    if t is ast.Div:
        return x / y
    if t is ast.FloorDiv:
        return x // y
    if t is ast.Mod:
        if isinstance(x, str):
            raise ValueError
        return x % y
    if t is ast.Pow:
        if abs(x) > 1e6 or abs(y) > 64:
            raise ValueError
        return x ** y
    if t is ast.BitAnd:
        return x & y
    if t is ast.BitOr:
        return x | y
    if t is ast.BitXor:
        return x ^ y
    raise ValueError


@posted("unary")
def unary(I, op, v, node, st):
    if isinstance(op, ast.Not):
        t = I.truth(v, st)
        if t is not None:
            return const(not t, v.deps)
        return scalar("bool", v.deps)
    if v.const is not NC:
        try:
            c = {ast.USub: lambda x: -x, ast.UAdd: lambda x: +x, ast.Invert: lambda x: ~x}[type(op)](v.const)
            return const(c, v.deps)
        except Exception:
            return unknown(v.deps)
    f = {k: x for k, x in v.f.items() if k in ("deg", "tw", "rnd", "ax", "dt")}
    f["vn"] = I.intern("un", type(op).__name__, I.vn_of(v))
    if isinstance(op, ast.USub) and f.get("rnd") not in ("poly",):
        pass
    c = I.content(v, st)
    for h in I.domains:
        h.unary(I, op, v, c, f, node, st)
    f = {k: x for k, x in f.items() if x is not None}
    if is_arr(I, v, st):
        r = I.buf(st, node, v.deps, f, "un")
        if v.prim:
            r = r.clone(prim=v.prim)
        return r
    return V(v.prim or frozenset(["any"]), deps=v.deps, f=f)


_NEG = {ast.Lt: ast.GtE, ast.GtE: ast.Lt, ast.Gt: ast.LtE, ast.LtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}


@posted("compare")
def compare(I, op, l, r, node, st):
    deps = l.deps | r.deps
    if isinstance(op, (ast.Is, ast.IsNot)):
        pos = isinstance(op, ast.Is)
        if r.const is None and r.isnone:
            if l.isnone:
                return const(pos, deps)
            if not l.maybe_none:
                return const(not pos, deps)
        elif l.const is not NC and r.const is not NC:
            return const((l.const is r.const) == pos, deps)
        return scalar("bool", deps)
    if isinstance(op, (ast.In, ast.NotIn)):
        pos = isinstance(op, ast.In)
        if l.const is not NC:
            if r.elts is not None and not r.mem and all(e.const is not NC for e in r.elts):
                return const((l.const in [e.const for e in r.elts]) == pos, deps)
            if len(r.mem) == 1 and not r.prim:
                o = st.heap.get(next(iter(r.mem)))
                if o is not None and o.kind == "dict":
                    if l.const in o.fields and not o.open:
                        return const(pos, deps)
                    if l.const not in o.fields and not o.open and o.elem is None:
                        return const(not pos, deps)
        for m in r.mem:
            o = st.heap.get(m)
            if o is not None and o.kind == "inst" and isinstance(o.cls, ClassInfo):
                f = o.cls.lookup("__contains__")
                if isinstance(f, FunctionInfo):
                    I.call_function(f, [l], {}, st, node, selfv=V(mem=frozenset([m])))
        h = I.hooks.get("contains")
        if h:
            h(I, l, r, node, st)
        return scalar("bool", deps)
    if l.const is not NC and r.const is not NC:
        try:
            c = {ast.Eq: lambda x, y: x == y, ast.NotEq: lambda x, y: x != y, ast.Lt: lambda x, y: x < y, ast.LtE: lambda x, y: x <= y,
                 ast.Gt: lambda x, y: x > y, ast.GtE: lambda x, y: x >= y}[type(op)](l.const, r.const)
            return const(bool(c), deps)
        except Exception:
            return scalar("bool", deps)
    # rich comparison of repository objects
    if isinstance(op, (ast.Eq, ast.NotEq)) and l.mem and not r.isnone:
        for m in sorted(l.mem, key=str):
            o = st.heap.get(m)
            if o is not None and o.kind == "inst" and isinstance(o.cls, ClassInfo):
                f = o.cls.lookup("__eq__")
                if isinstance(f, FunctionInfo) and not any(x is f for x, _ in I.stack):
                    rv = I.call_function(f, [r], {}, st, node, selfv=V(mem=frozenset([m])))
                    if rv is not None:
                        deps = deps | rv.deps
                return scalar("bool", deps)
    cl, cr = I.content(l, st), I.content(r, st)
    dl, dr = cl.f.get("deg"), cr.f.get("deg")
    deg_unify(I, dl, dr, node, "comparison")
    ax = ax_broadcast(I, axes(I, l, st), axes(I, r, st), node, "comparison")
    if l.f.get("fr") and r.f.get("fr") and l.f["fr"] != r.f["fr"]:
        I.report("frame", node, "comparison combines a component along a world axis with a component along a lattice axis")
    f = {"dt": "bool"}
    for h in I.domains:
        h.compare(I, op, l, r, cl, cr, f, node, st)
    f["vn"] = I.intern("cmp", type(op).__name__, I.vn_of(l), I.vn_of(r))
    f = {k: x for k, x in f.items() if x is not None}
    if is_arr(I, l, st) or is_arr(I, r, st):
        v = mk(I, st, node, deps, ax, f, tag="cmp", boolean=True)
        if ax is None and (l.prim or not l.mem) and (r.prim or not r.mem):
            v = v.clone(prim=v.prim | {"bool"})
        return v
    f.pop("dt", None)
    return V(frozenset(["bool"]), deps=deps | st.pc, f=f)


def learn(I, v, lab, st):
    """Whole-number coefficients that are contracted with a labelled axis are coefficients of that kind from here on."""
    vn = v.f.get("vn")
    if st is None or not I.learn or vn is None or not v.mem or v.const is not NC or v.f.get("ax") is None:
        return
    c = I.content(v, st).f
    if c.get("deg") != 0 or not str(v.f.get("dt") or c.get("dt") or "").startswith("int"):
        return
    for k, x in list(st.env.items()):
        if isinstance(x, V) and x.f.get("vn") == vn and x.f.get("ax") and x.f["ax"][-1] == v.f["ax"][-1]:
            st.env[k] = x.clone(f=dict(x.f, ax=x.f["ax"][:-1] + (lab,)))


def contract(I, aa, ab, node, kind, a=None, b=None, st=None):
    if aa is None or ab is None:
        # still check the contracted axes when visible
        return None, None
    if len(aa) == 0 or len(ab) == 0:
        return (aa or ab), None
    if kind == "inner":
        x, y = aa[-1], ab[-1]
        res = aa[:-1] + ab[:-1]
    elif kind in ("dot", "matmul"):
        if len(ab) == 1:
            x, y = aa[-1], ab[0]
            res = aa[:-1]
        elif len(aa) == 1:
            x, y = aa[0], ab[-2]
            res = ab[:-2] + ab[-1:]
        else:
            x, y = aa[-1], ab[-2]
            if kind == "dot":
                res = aa[:-1] + ab[:-2] + ab[-1:]
            else:
                res = (aa[:-2] if len(aa) >= len(ab) else ab[:-2]) + (aa[-2], ab[-1])
    else:
        return None, None
    if I.shape_errors and st is not None:
        nx, ny = label_len(I, x).const, label_len(I, y).const
        if isinstance(nx, int) and isinstance(ny, int) and nx != ny:
            I.raise_(V(fn=(("ext", "builtins.ValueError"),)), st, node)
            return None, "dead"
    if x in WL and y in WL and x != y:
        I.report("frame", node, f"{kind} contracts a {'world' if x == 'W' else 'lattice'}-coordinate axis with a {'world' if y == 'W' else 'lattice'}-coordinate axis")
    if st is not None and y in WL and x not in WL and aa[-1] == x:
        learn(I, a, y, st)
    return res, None


# =====================================================================================
# array attributes and indexing
# =====================================================================================
ARR_INPLACE = {"fill", "sort", "put", "itemset", "resize", "partition", "setfield"}


@posted("attr")
def array_attr(I, b, attr, st, node):
    ax = b.f.get("ax") if not (b.prim and not b.mem) else ()
    if attr == "T":
        f = dict(b.f)
        if ax is not None:
            f["ax"] = tuple(reversed(ax))
            lens = f.pop("rowroles", None)
            cr = f.pop("colroles", None)
            if cr:
                f["rowroles"] = cr
            if lens:
                f["colroles"] = lens
        f["vn"] = I.intern("T", I.vn_of(b))
        f["view"] = True
        return b.clone(f=f)
    if attr == "shape":
        if ax is not None:
            return V(frozenset(["tuple"]), elts=tuple(label_len(I, a) for a in ax), deps=b.deps)
        return V(frozenset(["any"]), deps=b.deps, f={"deg": 0, "vn": I.intern("shape", I.vn_of(b))})
    if attr in ("size", "ndim", "nbytes", "itemsize"):
        return V(frozenset(["int"]), deps=b.deps, f={"deg": 0, "vn": I.intern(attr, I.vn_of(b))})
    if attr == "dtype":
        return V(frozenset(["dtype"]), deps=b.deps, f={"dtv": b.f.get("dt") or ("of", I.vn_of(b) or I.fresh_vn())})
    if attr in ("real", "imag", "flat", "base"):
        return b
    return V(fn=(("ameth", attr, b),), deps=b.deps)


def index_items(I, k):
    if k.elts is not None and not k.mem:
        return list(k.elts)
    return [k]


def classify_index(I, x, st):
    if x.fn and x.fn[0][0] == "slice":
        return "slice"
    if x.const is None and x.isnone:
        return "new"
    if x.const is Ellipsis:
        return "ellipsis"
    if x.mem:
        if is_arr(I, x, st) or is_list(I, x, st):
            if x.prim & {"num", "int"} and "ax" not in x.f and not is_list(I, x, st) and x.f.get("dt") != "bool":
                return "intorfancy"
            return "fancy"
        return "any"
    if x.elts is not None:
        return "fancy"
    if x.prim and x.prim <= {"int", "num", "bool", "none", "float"}:
        return "int"
    return "any"


@posted("index")
def array_index(I, b, k, st, node):
    items = index_items(I, k)
    kinds = [classify_index(I, x, st) for x in items]
    deps = b.deps | k.deps
    ax = b.f.get("ax")
    fancy = any(q in ("fancy", "intorfancy") for q in kinds)
    anyk = "any" in kinds
    f = {x: y for x, y in b.f.items() if x in CONTENT or x in ("dt",)}
    newax = None
    comp = None
    if ax is not None:
        newax = []
        i = 0
        nreal = sum(1 for q in kinds if q not in ("new", "ellipsis"))
        fancy_done = False
        bool_mask = False
        ok = True
        for x, q in zip(items, kinds):
            if q == "new":
                newax.append(1)
                continue
            if q == "ellipsis":
                take = len(ax) - nreal
                newax.extend(ax[i:i + take])
                i += take
                continue
            if i >= len(ax):
                ok = False
                break
            lab = ax[i]
            if q == "slice":
                newax.append(slice_label(I, lab, x))
                i += 1
            elif q == "int":
                if lab in WL:
                    comp = lab
                i += 1
            elif q == "fancy":
                xa = axes(I, x, st)
                isb = x.f.get("dt") == "bool"
                if isb and xa is not None:
                    # boolean masks consume their own rank
                    newax.append(("sel", lab, I.vn_of(x)) if len(xa) == 1 else "?")
                    i += len(xa)
                elif isb:
                    ok = False
                    break
                else:
                    if xa is None:
                        ok = False
                        break
                    if not fancy_done:
                        if len(xa) == 1 and nreal == 1:
                            newax.append(("sel", lab, I.vn_of(x)))
                        else:
                            newax.extend("?" if not (isinstance(a, str) or isinstance(a, tuple)) else a for a in xa)
                        fancy_done = True
                    i += 1
            else:
                ok = False
                break
        if ok:
            newax.extend(ax[i:])
        else:
            newax = None
    # component selection of coordinate axes keeps content facts
    f["vn"] = I.intern("idx", I.vn_of(b), I.vn_of(k) or _idx_vn(I, items))
    if f["vn"][0] == "v":
        pass
    f.pop("mk", None)
    for h in I.domains:
        h.index(I, b, k, items, kinds, f, node, st)
    f = {x: y for x, y in f.items() if y is not None}
    if fancy:
        v = mk(I, st, node, deps, tuple(newax) if newax is not None else None, f, tag="fancy")
        if newax is None and "intorfancy" in kinds:
            v = v.clone(prim=frozenset(["num"]), mem=v.mem | b.mem)
        return v
    if anyk:
        v = mk(I, st, node, deps, None, f, tag="anyidx")
        return v.clone(prim=frozenset(["num"]))
    if newax is not None:
        if len(newax) == 0:
            if comp is not None:
                f["fr"] = comp
            return V(frozenset(["num"]), deps=deps, f={x: y for x, y in f.items() if x != "ax"})
        f["ax"] = tuple(newax)
        f["view"] = True
        if comp is not None and not any(l in WL or l == "LI" for l in newax):
            f["fr"] = comp
        return b.clone(f=f, deps=deps)
    # rank unknown, basic indexing: a view or a scalar
    nint = sum(1 for q in kinds if q == "int")
    f["view"] = True
    prim = frozenset(["num"]) if nint == len(items) else EMPTY
    return b.clone(f=f, deps=deps, prim=prim)


def _idx_vn(I, items):
    out = []
    for x in items:
        if x.fn and x.fn[0][0] == "slice":
            p = []
            for y in x.fn[0][1:4]:
                if y is None:
                    p.append("-")
                else:
                    q = I.vn_of(y)
                    if q is None:
                        return None
                    p.append(q)
            out.append(("sl",) + tuple(p))
        else:
            q = I.vn_of(x)
            if q is None:
                return None
            out.append(q)
    return tuple(out)


def slice_label(I, lab, x):
    f = x.fn[0]
    if f[1] is None and f[2] is None and f[3] is None:
        return lab
    lo, hi, step = f[1:4]
    lc = lo.const if lo is not None else None
    hc = hi.const if hi is not None else None
    sc = step.const if step is not None else None
    if any(c is NC for c in (lc, hc, sc)):
        return "?"
    n = lab
    if lab in WL and I.dim:
        n = I.dim
        if lc in (None, 0) and sc in (None,) and isinstance(hc, int) and hc >= n:
            return lab
    if sc == -1 and lc is None and hc is None:
        return ("rev", lab) if isinstance(lab, tuple) or lab == "?" else lab
    if isinstance(n, int):
        try:
            r = len(range(*slice(lc, hc, sc).indices(n)))
            if lab in WL and r == n:
                return lab
            return r
        except Exception:
            return "?"
    if lab == "LI" and lc is None and hc == -1 and sc is None:
        return "L"
    return ("slice", lab, lc, hc, sc) if isinstance(lab, tuple) else "?"


def np_index_obj(I, name, k, st, node):
    items = index_items(I, k)
    if name in ("numpy.c_", "numpy.r_"):
        deps = k.deps
        c = None
        for x in items:
            c = jopt(c, I.content(x, st))
        f = {x: y for x, y in (c.f if c else {}).items() if x in ("deg", "tw", "rnd", "dt")}
        if name == "numpy.c_":
            rows = "?"
            a0 = axes(I, items[0], st)
            if a0:
                rows = a0[0]
            cols = "?"
            tot = 0
            for x in items:
                a = axes(I, x, st)
                if a is None or len(a) > 2:
                    tot = None
                    break
                n = 1 if len(a) == 1 else a[1]
                n = I.dim if n in WL and I.dim else n
                if not isinstance(n, int):
                    tot = None
                    break
                tot += n
            return mk(I, st, node, deps, (rows, tot if tot is not None else "?"), f, tag="c_")
        return mk(I, st, node, deps, ("?",), f, tag="r_")
    return mk(I, st, node, k.deps, None, {"deg": 0}, tag="grid")


# =====================================================================================
# dtype handling
# =====================================================================================
WIDE = {"int64", "float64", "bool", "int", "float", "complex128", "intp"}
KINDS = {"int": "int64", "float": "float64", "bool": "bool", "complex": "complex128", "int_": "int64", "float_": "float64", "intp": "int64", "bool_": "bool"}
RANK = ["bool", "uint8", "int8", "uint16", "int16", "uint32", "int32", "uint64", "int64", "float16", "float32", "float64", "complex64", "complex128"]


def dtype_of(I, v):
    if v is None or v.isnone:
        return None
    if "dtv" in v.f:
        return v.f["dtv"]
    if v.const is not NC and isinstance(v.const, str):
        c = v.const
        short = {"i1": "int8", "i2": "int16", "i4": "int32", "i8": "int64", "u1": "uint8", "u2": "uint16", "u4": "uint32", "f4": "float32", "f8": "float64", "b": "int8", "h": "int16", "?": "bool", "i": "int32", "B": "uint8", "H": "uint16", "f": "float32", "d": "float64"}
        return short.get(c.lstrip("<>="), KINDS.get(c, c))
    for f in v.fn or ():
        if f[0] in ("ext", "builtin"):
            n = f[1].split(".")[-1]
            alias = {"byte": "int8", "ubyte": "uint8", "short": "int16", "ushort": "uint16", "intc": "int32", "uintc": "uint32", "single": "float32", "half": "float16", "longlong": "int64", "double": "float64"}
            n = alias.get(n, n)
            return KINDS.get(n, n)
    return ("dyn", I.vn_of(v) or I.fresh_vn())


def promote(I, a, b, op, st):
    da, db = a.f.get("dt"), b.f.get("dt")
    if isinstance(op, ast.Div):
        return "float64"

    def scal(v):
        return not v.mem and v.elts is None

    if scal(a) and scal(b):
        return None
    if scal(b) and a.mem:
        if b.prim <= {"int", "bool"} and da is not None:
            return da if da != "bool" else "int64"
        if b.prim <= {"float"} and isinstance(da, str):
            return da if da.startswith("float") else "float64"
        if db is None:
            return "float64" if da == "float64" else None
    if scal(a) and b.mem:
        if a.prim <= {"int", "bool"} and db is not None:
            return db if db != "bool" else "int64"
        if a.prim <= {"float"} and isinstance(db, str):
            return db if db.startswith("float") else "float64"
        if da is None:
            return "float64" if db == "float64" else None
    if da == db:
        return da
    if isinstance(da, str) and isinstance(db, str) and da in RANK and db in RANK:
        return max(da, db, key=RANK.index)
    if "float64" in (da, db):
        return "float64"
    if "int64" in (da, db):
        return "int64" if not any(isinstance(x, str) and "float" in x for x in (da, db)) and None not in (da, db) else None
    return None


# =====================================================================================
# calls
# =====================================================================================
def unknown_call(I, f, args, kw, st, node):
    h = I.hooks.get("unknown_call")
    if h:
        h(I, f, args, kw, st, node)
    return unknown(f.deps | I.deps_of(args, kw) | st.pc)


def bindargs(args, kw, names):
    out = {}
    for n, a in zip(names, args):
        out[n] = a
    for k, v in kw.items():
        out[k] = v
    return out


def alldeps(I, args, kw, star=None, dstar=None):
    d = I.deps_of(args, kw)
    for x in (star, dstar):
        if x is not None:
            d = d | x.deps
    return d


def call_ext(I, f, fv, args, kw, st, node, star=None, dstar=None):
    r = _call_ext(I, f, fv, args, kw, st, node, star, dstar)
    if I.fulldeps and r is not None and not (f[0] in ("extsuper", "extmeth") and f[1] == "query"):
        d = fv.deps | st.pc
        for a in list(args) + list(kw.values()) + [x for x in (star, dstar) if x is not None]:
            d = d | _deepdeps(I, a, st)
        if f[0] in ("ameth", "pmeth", "umeth"):
            d = d | _deepdeps(I, f[2], st)
        if "reduced" in I.hooks and isinstance(f[1], str):
            r = r.dep(d - I.hooks["reduced"](f[1]))
        else:
            r = r.dep(d)
    return r


def _call_ext(I, f, fv, args, kw, st, node, star=None, dstar=None):
    kind = f[0]
    if kind == "ext":
        return ext_function(I, f[1], args, kw, st, node, star, dstar)
    if kind == "builtin":
        return builtin(I, f[1], args, kw, st, node, star, dstar)
    if kind == "ameth":
        return array_method(I, f[1], f[2], args, kw, st, node)
    if kind == "cmeth":
        return container_method(I, f[1], f[2], f[3], args, kw, st, node, fv)
    if kind == "pmeth":
        return prim_method(I, f[1], f[2], args, kw, st, node)
    if kind == "umeth":
        return unknown_method(I, f[1], f[2], args, kw, st, node)
    if kind == "extsuper":
        return ext_super(I, f[1], f[2], f[3], args, kw, st, node)
    if kind == "mapmeth":
        return mapping_method(I, f[1], f[2], args, kw, st, node)
    if kind == "extmeth":
        return ext_method(I, f[1], f[2], args, kw, st, node)
    return unknown_call(I, fv, args, kw, st, node)


def unknown_method(I, name, recv, args, kw, st, node):
    h = I.hooks.get("unknown_call")
    if h:
        h(I, V(fn=(("umeth", name, recv),)), args, kw, st, node)
    return unknown(recv.deps | I.deps_of(args, kw) | st.pc)


def mapping_method(I, name, m, args, kw, st, node):
    """Methods a class inherits from collections.abc.MutableMapping, in terms of its own item methods."""
    o = st.heap.get(m)
    recv = V(mem=frozenset([m]))
    deps = I.deps_of(args, kw) | st.pc

    def own(meth, a, s):
        fi = o.cls.lookup(meth) if o is not None and isinstance(o.cls, ClassInfo) else None
        return I.call_function(fi, a, {}, s, node, selfv=recv) if isinstance(fi, FunctionInfo) else unknown(deps)

    def maybe(meth, a):
        s2 = st.copy()
        if own(meth, a, s2) is not None:
            st.become(join_states(st.copy(), s2, deps))
    key = args[0] if args else scalar("str", deps)
    out = unknown(deps)
    if name in ("get", "setdefault", "pop") and args:
        s2 = st.copy()
        out = own("__getitem__", [key], s2)
        out = join(out, args[1] if len(args) > 1 else const(None)) if out is not None else (args[1] if len(args) > 1 else unknown(deps))
    if name == "setdefault":
        maybe("__setitem__", [key, args[1] if len(args) > 1 else const(None)])
    elif name == "update":
        maybe("__setitem__", [scalar("str", deps), unknown(deps)])
        out = const(None)
    elif name in ("pop", "popitem", "clear"):
        maybe("__delitem__", [key])
        out = out if name != "clear" else const(None)
    return out.dep(deps)


def ext_method(I, name, m, args, kw, st, node):
    o = st.heap.get(m)
    deps = I.deps_of(args, kw)
    cls = str(o.cls) if o is not None else ""
    if cls.startswith("itertools.count") and name == "__next__":
        return scalar("int", deps)
    if o is not None and o.cls and "KDTree" in str(getattr(o.cls, "name", o.cls)):
        return kdtree_method(I, name, m, args, kw, st, node)
    return unknown(deps | st.pc)


def ext_inst_attr(I, m, o, attr, st, node):
    """Attribute of an object implemented outside the package."""
    if attr in o.fields:
        return o.fields[attr]
    exts = o.cls.ext_mro() if isinstance(o.cls, ClassInfo) else [str(o.cls)]
    joined = " ".join(exts)
    if "KDTree" in joined:
        if attr in ("query", "query_ball_tree", "query_ball_point", "query_pairs", "count_neighbors", "sparse_distance_matrix"):
            return V(fn=(("extmeth", attr, m),))
        if attr == "data":
            return o.fields.get("__points__", unknown())
        if attr in ("n", "m"):
            return scalar("int", deg=0, vn=("kdn", m))
        return unknown()
    if "ConvexHull" in joined or "Voronoi" in joined:
        pts = o.fields.get("__points__")
        deps = pts.deps if pts is not None else EMPTY
        c = I.content(pts, st) if pts is not None else scalar()
        d = c.f.get("deg")
        paxs = axes(I, pts, st) if pts is not None else None
        w = paxs[-1] if paxs and len(paxs) == 2 else "?"
        if attr == "points" and pts is not None:
            return pts
        if attr in ("points", "vertices") and not ("ConvexHull" in joined and attr == "vertices"):
            v = mk(I, st, node, deps, (f"?", w), {"deg": d, "dt": "float64", "rnd": None}, tag=attr)
        elif attr == "equations":
            v = mk(I, st, node, deps, ("?", "?"), {"dt": "float64"}, tag=attr)
        elif attr in ("simplices", "vertices", "ridge_points", "ridge_vertices", "regions"):
            v = mk(I, st, node, deps, ("?", "?") if attr != "vertices" else ("?",), {"deg": 0, "dt": "int64"}, tag=attr)
        else:
            v = unknown(deps)
        o2 = st.heap[m].clone()
        o2.fields[attr] = v
        st.heap[m] = o2
        return v
    if "MutableMapping" in joined or "Mapping" in joined:
        if attr in ("items", "keys", "values", "get", "pop", "update", "setdefault", "clear", "popitem"):
            return V(fn=(("mapmeth", attr, m),))
    if "Exception" in joined or any(e.endswith("Error") for e in exts):
        if attr == "args":
            return unknown()
    return V(frozenset(["any"]), fn=(("extmeth", attr, m),))


def ext_super(I, name, cls, selfv, args, kw, st, node):
    deps = I.deps_of(args, kw)
    exts = " ".join(cls.ext_mro())
    if name == "__setattr__" and len(args) == 2:
        k = args[0]
        for m in selfv.mem:
            if k.const is not NC:
                I.set_field(st, m, k.const, args[1], node, strong=len(selfv.mem) == 1)
        return const(None)
    if name == "__getattribute__" and args and args[0].const is not NC:
        for m in selfv.mem:
            o = st.heap.get(m)
            if o is not None and args[0].const in o.fields:
                return o.fields[args[0].const]
        return unknown(deps)
    if name == "__init__":
        for m in selfv.mem:
            o = st.heap.get(m)
            if o is None:
                continue
            o = o.clone()
            if "KDTree" in exts and args:
                o.fields["__points__"] = args[0]
                if len(args) > 1 or kw:
                    o.fields["__ctor__"] = scalar("any", I.deps_of(args[1:], kw))
            o.fields.setdefault("args", V(frozenset(["tuple"]), elts=tuple(args), deps=deps)) if "Exception" in exts or not exts or "Error" in exts else None
            st.heap[m] = o
        return const(None)
    if "KDTree" in exts:
        r = None
        for m in selfv.mem:
            r = jopt(r, kdtree_method(I, name, m, args, kw, st, node))
        return r if r is not None else unknown(deps)
    return unknown(deps | st.pc | selfv.deps)


@posted("kd")
def kdtree_method(I, name, m, args, kw, st, node):
    o = st.heap.get(m)
    pts = o.fields.get("__points__") if o is not None else None
    pdeg = I.content(pts, st).f.get("deg") if pts is not None else None
    if pts is not None and "__ctor__" in o.fields:
        pts = pts.dep(o.fields["__ctor__"].deps)
    if name == "query":
        A = bindargs(args, kw, ["x", "k", "eps", "p", "distance_upper_bound", "workers"])
        h = I.hooks.get("workers")
        wk = A.get("workers")
        deps = EMPTY
        for kk, v in A.items():
            if kk != "workers":
                deps = deps | v.deps
        if pts is not None:
            deps = deps | pts.deps
        if wk is not None:
            I.emit("workers", m, "workers", node, st, wk)
        x = A.get("x")
        xa = axes(I, x, st) if x is not None else None
        if x is not None and pts is not None:
            deg_unify(I, I.content(x, st).f.get("deg"), pdeg, node, "tree query")
            pa = axes(I, pts, st)
            if xa and pa:
                lab_unify(I, xa[-1], pa[-1], node, "tree query")
        ub = A.get("distance_upper_bound")
        if ub is not None:
            deg_unify(I, I.content(ub, st).f.get("deg"), pdeg, node, "tree query bound")
        ax = (xa[:-1] + (("k", I.clock),)) if xa is not None and len(xa) >= 1 else None
        d = mk(I, st, node, deps, ax, {"deg": pdeg, "rnd": "raw", "dt": "float64", "vn": I.fresh_vn(), "role": "dist"}, tag="kdist")
        n = mk(I, st, node, deps, ax, {"deg": 0, "dt": "int64", "vn": I.fresh_vn(), "role": "nbr"}, tag="kidx")
        h = I.hooks.get("kdquery")
        if h:
            d, n = h(I, m, d, n, st, node)
        return V(frozenset(["tuple"]), elts=(d, n), deps=deps)
    deps = I.deps_of(args, kw) | (pts.deps if pts is not None else EMPTY)
    if name in ("query_ball_tree", "query_ball_point", "query_pairs"):
        A = bindargs(args, kw, ["other", "r"] if name == "query_ball_tree" else (["x", "r"] if name == "query_ball_point" else ["r"]))
        if "r" in A:
            deg_unify(I, I.content(A["r"], st).f.get("deg"), pdeg, node, "tree query radius")
        inner = I.mklist(st, node, None, scalar("int", deps, deg=0), deps=deps, tag="qbt1")
        if name == "query_ball_tree":
            return I.mklist(st, node, None, inner, deps=deps, tag="qbt")
        return inner
    return unknown(deps | st.pc)


# ---- builtins ------------------------------------------------------------------------
@posted("builtin")
def builtin(I, name, args, kw, st, node, star=None, dstar=None):
    deps = alldeps(I, args, kw, star, dstar)
    a0 = args[0] if args else None
    h = I.hooks.get("builtin")
    if h:
        r = h(I, name, args, kw, st, node)
        if r is not None:
            return r
    if name == "len" and a0 is not None:
        return length(I, a0, st, node)
    if name in ("range",):
        return b_range(I, args, st, node)
    if name == "enumerate" and a0 is not None:
        ex, el = I.iterate(a0, st, node)
        start = args[1] if len(args) > 1 else kw.get("start", const(0))
        if ex is not None and start.const is not NC:
            return V(frozenset(["tuple"]), elts=tuple(V(frozenset(["tuple"]), elts=(const(i + start.const), x.dep(a0.deps)), deps=x.deps) for i, x in enumerate(ex)), deps=deps)
        i = V(frozenset(["int"]), deps=a0.deps, f={"deg": 0, "vn": I.fresh_vn(), "rng": ("enum", I.vn_of(a0))})
        t = V(frozenset(["tuple"]), elts=(i, (el if el is not None else unknown(deps))), deps=deps)
        return I.mklist(st, node, None, t, deps=deps, tag="enum")
    if name == "zip":
        its = [I.iterate(a, st, node) for a in args]
        if its and all(ex is not None for ex, _ in its) and star is None:
            n = min(len(ex) for ex, _ in its)
            return V(frozenset(["tuple"]), elts=tuple(V(frozenset(["tuple"]), elts=tuple(ex[i] for ex, _ in its), deps=deps) for i in range(n)), deps=deps)
        if star is not None:
            ex, el = I.iterate(star, st, node)
            return I.mklist(st, node, None, I.mklist(st, node, None, el if el is not None else I._joinall(ex or ()) or unknown(deps), tag="zi"), deps=deps, tag="zip")
        els = []
        for (ex, el), a in zip(its, args):
            e = el
            for x in ex or ():
                e = jopt(e, x)
            els.append((e if e is not None else unknown(a.deps)))
        t = V(frozenset(["tuple"]), elts=tuple(els), deps=deps)
        return I.mklist(st, node, None, t, deps=deps, tag="zip")
    if name in ("list", "tuple", "sorted", "reversed", "iter", "set", "frozenset"):
        kind = "set" if name in ("set", "frozenset") else "list"
        if a0 is None:
            return I.mklist(st, node, [] if kind == "list" else None, deps=deps, kind=kind) if name != "tuple" else V(frozenset(["tuple"]), elts=())
        ex, el = I.iterate(a0, st, node)
        if ex is not None and name in ("list", "iter", "tuple"):
            if name == "tuple":
                return V(frozenset(["tuple"]), elts=tuple(ex), deps=deps)
            return I.mklist(st, node, ex, deps=deps)
        e = el
        for x in ex or ():
            e = jopt(e, x)
        r = I.mklist(st, node, None, e if e is not None else unknown(deps), deps=deps, kind=kind)
        if name == "sorted":
            key = kw.get("key")
            if I.fulldeps and key is not None and e is not None:
                kv = I.call(key, [e], {}, st, node)
                if kv is not None:
                    r = r.dep(I.content(kv, st).deps)
            if ex is not None and name == "sorted":
                o = st.heap[next(iter(r.mem))].clone()
                o.elts = tuple(e for _ in ex) if e is not None else ()
                o.elem = None
                st.heap[next(iter(r.mem))] = o
        return r
    if name == "dict":
        oid = I.alloc(st, "dict", node)
        o = st.heap[oid].clone()
        if a0 is not None:
            for m in a0.mem:
                s = st.heap.get(m)
                if s is not None and s.kind == "dict":
                    o.fields.update(s.fields)
                    o.open = o.open or s.open
                    o.elem = jopt(o.elem, s.elem)
                    o.key = jopt(o.key, s.key)
                else:
                    o.open = True
                    _, el = I.iterate(a0, st, node)
                    if el is not None and el.elts is not None and len(el.elts) == 2:
                        o.key, o.elem = jopt(o.key, el.elts[0]), jopt(o.elem, el.elts[1])
            if not a0.mem:
                o.open = True
        for k, v in kw.items():
            o.fields[k] = v
        if dstar is not None:
            o.open = True
            o.elem = jopt(o.elem, dstar)
        st.heap[oid] = o
        return V(mem=frozenset([oid]), deps=deps, ver=I.clock)
    if name == "isinstance" and len(args) == 2:
        tys = None
        if args[1].fn:
            tys = list(args[1].fn)
        elif args[1].elts is not None and all(e.fn for e in args[1].elts):
            tys = [x for e in args[1].elts for x in e.fn]
        if tys is None:
            return scalar("bool", deps)
        yes, no = I.split_isinstance(a0, tys, st)
        if yes is None:
            return const(False, deps)
        if no is None:
            return const(True, deps)
        return scalar("bool", deps)
    if name in ("hasattr",):
        if len(args) == 2 and args[1].const is not NC:
            at = args[1].const
            if at == "__len__":
                if a0.elts is not None and not a0.prim - {"tuple"}:
                    return const(True, deps)
                if a0.prim and not a0.mem and a0.elts is None and a0.prim <= {"int", "float", "bool", "none", "num"}:
                    return const(False, deps)
                if a0.mem and not a0.prim and all(m in st.heap and st.heap[m].kind in ("buf", "list", "dict", "set") for m in a0.mem):
                    return const(True, deps)
            elif len(a0.mem) == 1 and not a0.prim:
                o = st.heap.get(next(iter(a0.mem)))
                if o is not None and o.kind == "inst" and isinstance(o.cls, ClassInfo) and not o.open and not o.cls.ext_mro():
                    has = at in o.fields or o.cls.lookup(at) is not None
                    if has or not o.summary:
                        return const(has, deps)
        return scalar("bool", deps)
    if name == "getattr" and len(args) >= 2:
        if args[1].const is not NC and isinstance(args[1].const, str):
            at = args[1].const
            for m in a0.mem:
                o = st.heap.get(m)
                if o is not None and o.kind == "inst" and isinstance(o.cls, ClassInfo) and not o.open and at not in o.fields and o.cls.lookup(at) is None and len(args) > 2:
                    return args[2]
            return I.getattr_(a0, at, st, node)
        # unknown name: may read any field
        r = None
        for m in a0.mem:
            o = st.heap.get(m)
            if o is not None and o.kind == "inst":
                for v in o.fields.values():
                    r = jopt(r, v)
        return (r if r is not None else unknown(deps)).dep(deps)
    if name == "setattr" and len(args) == 3:
        if args[1].const is not NC:
            I.setattr_(a0, args[1].const, args[2], st, node)
        else:
            for m in a0.mem:
                o = st.heap.get(m)
                if o is not None and o.kind == "inst":
                    I.emit("write", m, "*", node, st, args[2])
        return const(None)
    if name == "delattr" and len(args) == 2:
        for m in a0.mem:
            I.emit("del", m, args[1].const if args[1].const is not NC else "*", node, st)
        return const(None)
    if name in ("min", "max"):
        if len(args) == 1:
            c = I.content(a0, st)
            h = [d for d in I.domains]
            f = {k: x for k, x in c.f.items() if k in ("deg", "tw", "rnd", "role", "mono", "rng")}
            f["vn"] = I.intern(name, I.vn_of(a0))
            for d in I.domains:
                d.reduce(I, name, a0, c, f, node, st)
            return V(frozenset(["num"]), deps=deps, f={k: x for k, x in f.items() if x is not None})
        return _minmax(I, name, args, st, node, deps)
    if name == "sum":
        c = I.content(a0, st)
        f = {k: x for k, x in c.f.items() if k in ("deg",)}
        f["vn"] = I.intern("sum", I.vn_of(a0))
        for d in I.domains:
            d.reduce(I, name, a0, c, f, node, st)
        return V(frozenset(["num"]), deps=deps | c.deps, f={k: x for k, x in f.items() if x is not None})
    if name in ("abs", "round", "float", "int", "bool", "complex", "pow", "divmod", "ord", "hash", "id"):
        return _num_builtin(I, name, args, kw, st, node, deps)
    if name in ("any", "all"):
        c = I.content(a0, st) if a0 is not None else scalar("bool")
        f = {}
        for d in I.domains:
            d.reduce(I, name, a0, c, f, node, st)
        return V(frozenset(["bool"]), deps=deps | c.deps, f={k: x for k, x in f.items() if x is not None})
    if name in ("str", "repr", "format", "chr", "ascii"):
        for a in args:
            for m in sorted(a.mem, key=str):
                o = st.heap.get(m)
                if o is not None and o.kind == "inst" and isinstance(o.cls, ClassInfo):
                    g = None
                    for nm in (("__str__", "__repr__") if name == "str" else ("__repr__",)):
                        g = o.cls.lookup(nm)
                        if isinstance(g, FunctionInfo):
                            break
                    if isinstance(g, FunctionInfo):
                        r = I.call_function(g, [], {}, st, node, selfv=V(mem=frozenset([m])))
                        if r is not None:
                            deps = deps | r.deps
            deps = deps | I.content(a, st).deps
        if name == "str" and a0 is not None and a0.const is not NC and isinstance(a0.const, (str, int)):
            return const(str(a0.const), deps)
        return scalar("str", deps)
    if name == "type" and len(args) == 1:
        fns = []
        for m in a0.mem:
            o = st.heap.get(m)
            if o is not None and isinstance(o.cls, ClassInfo):
                fns.append(("class", o.cls))
        if fns:
            return V(fn=tuple(dict.fromkeys(fns)), deps=deps)
        return unknown(deps)
    if name == "next":
        if a0 is not None:
            for m in a0.mem:
                o = st.heap.get(m)
                if o is not None and o.kind in ("list", "ext"):
                    I.emit("advance", m, "next", node, st)
            ex, el = I.iterate(a0, st, node)
            v = el
            for x in ex or ():
                v = jopt(v, x)
            if len(args) > 1:
                v = jopt(v, args[1])
            return (v if v is not None else unknown(deps)).dep(deps)
        return unknown(deps)
    if name == "map" and len(args) >= 2:
        its = [I.iterate(a, st, node) for a in args[1:]]
        if all(ex is not None for ex, _ in its):
            n = min(len(ex) for ex, _ in its)
            outs = []
            for i in range(n):
                I.iter_ctx.append(("map", i))
                r = I.call(a0, [ex[i] for ex, _ in its], {}, st, node)
                I.iter_ctx.pop()
                if r is None:
                    return None
                outs.append(r)
            return I.mklist(st, node, outs, deps=deps, tag="map")
        els = []
        for ex, el in its:
            e = el
            for x in ex or ():
                e = jopt(e, x)
            els.append(e if e is not None else unknown(deps))
        r = I.call(a0, els, {}, st, node)
        if r is None:
            return None
        return I.mklist(st, node, None, r, deps=deps, tag="map")
    if name == "filter" and len(args) == 2:
        ex, el = I.iterate(args[1], st, node)
        e = el
        for x in ex or ():
            e = jopt(e, x)
        if not a0.isnone:
            r = I.call(a0, [e if e is not None else unknown(deps)], {}, st, node)
            if r is not None:
                deps = deps | r.deps
        return I.mklist(st, node, None, e if e is not None else unknown(deps), deps=deps, tag="filter")
    if name == "slice":
        p = [None if a.isnone else a for a in args]
        if len(p) == 1:
            p = [None, p[0], None]
        while len(p) < 3:
            p.append(None)
        return V(frozenset(["slice"]), fn=(("slice", p[0], p[1], p[2]),), deps=deps)
    if name == "super":
        return unknown(deps)
    if name in ("print", "callable", "issubclass", "open", "vars", "input", "globals", "locals"):
        if name == "vars" and a0 is not None:
            return I.getattr_(a0, "__dict__", st, node)
        return unknown(deps)
    if name.endswith("Error") or name.endswith("Exception") or name.endswith("Warning"):
        oid = I.alloc(st, "ext", node, cls=name)
        return V(mem=frozenset([oid]), deps=deps)
    if name in ("dict.fromkeys",):
        oid = I.alloc(st, "dict", node)
        o = st.heap[oid].clone()
        ex, el = I.iterate(a0, st, node)
        val = args[1] if len(args) > 1 else const(None)
        if ex is not None and all(e.const is not NC for e in ex):
            for e in ex:
                o.fields[e.const] = val
        else:
            o.open, o.elem, o.key = True, val, el
        st.heap[oid] = o
        return V(mem=frozenset([oid]), deps=deps, ver=I.clock)
    if name == "object":
        return V(mem=frozenset([I.alloc(st, "ext", node, cls="object")]))
    return unknown(deps | st.pc)


def _minmax(I, name, args, st, node, deps):
    d = I.content(args[0], st).f.get("deg")
    cs = [I.content(a, st) for a in args]
    for c in cs[1:]:
        d = deg_unify(I, d, c.f.get("deg"), node, name)
    if all(a.const is not NC for a in args):
        try:
            return const((min if name == "min" else max)(a.const for a in args), deps)
        except Exception:
            pass
    f = {"deg": d}
    vns = [I.vn_of(a) for a in args]
    f["vn"] = I.intern(name, *sorted(map(repr, vns))) if None not in vns else I.fresh_vn()
    for h in I.domains:
        h.minmax(I, name, args, cs, f, node, st)
    p = frozenset(["int"]) if all(a.prim and a.prim <= {"int"} for a in args) else frozenset(["num"])
    return V(p, deps=deps, f={k: x for k, x in f.items() if x is not None})


def _num_builtin(I, name, args, kw, st, node, deps):
    a0 = args[0] if args else const(0)
    c = I.content(a0, st)
    if a0.const is not NC and isinstance(a0.const, (int, float, bool)) and not kw:
        try:
            fn = {"abs": abs, "float": float, "int": int, "bool": bool, "round": round}.get(name)
            if fn and len(args) == 1:
                return const(fn(a0.const), deps)
        except Exception:
            pass
    f = {}
    if name in ("abs", "float", "round", "int"):
        f = {k: x for k, x in c.f.items() if k in ("deg", "tw", "rnd", "role", "rng", "mono", "aff")}
        if name == "int":
            whole(I, "int", c, node)
        if name == "round":
            dec = args[1] if len(args) > 1 else kw.get("ndigits")
            if dec is None or dec.isnone or dec.const is not NC and isinstance(dec.const, int) and dec.const <= 0:
                whole(I, "round", c, node)
            if dec is not None and not dec.isnone:
                f["rnd"] = ("r", I.vn_of(dec))
            f["deg"] = c.f.get("deg")
        if name in ("abs",):
            f["sgn"] = "+"
            f.pop("mono", None)
            f.pop("aff", None)
        f["vn"] = I.intern(name, I.vn_of(a0)) if name != "float" else (I.vn_of(a0) or I.fresh_vn())
        for h in I.domains:
            h.ufunc(I, name, a0, c, f, node, st)
    if name == "bool":
        t = I.truth(a0, st)
        if t is not None:
            return const(t, deps)
        return scalar("bool", deps)
    if name == "divmod" and len(args) == 2:
        q = binop(I, ast.FloorDiv(), args[0], args[1], node, st)
        r = binop(I, ast.Mod(), args[0], args[1], node, st)
        return V(frozenset(["tuple"]), elts=(q, r), deps=deps)
    p = {"int": "int", "float": "float", "hash": "int", "id": "int"}.get(name, "num")
    if name == "hash":
        for m in a0.mem:
            o = st.heap.get(m)
            if o is not None and isinstance(o.cls, ClassInfo):
                g = o.cls.lookup("__hash__")
                if isinstance(g, FunctionInfo) and not any(x is g for x, _ in I.stack):
                    r = I.call_function(g, [], {}, st, node, selfv=V(mem=frozenset([m])))
                    if r is not None:
                        deps = deps | r.deps
    if name == "abs" and is_arr(I, a0, st):
        return mk(I, st, node, deps, axes(I, a0, st), dict(f, dt=a0.f.get("dt")), tag="abs")
    return V(frozenset([p]), deps=deps | c.deps, f={k: x for k, x in f.items() if x is not None})


def length(I, v, st, node):
    if v.const is not NC and isinstance(v.const, str):
        return const(len(v.const), v.deps)
    if v.elts is not None and not v.mem:
        return const(len(v.elts), v.deps)
    if len(v.mem) == 1 and not v.prim:
        o = st.heap.get(next(iter(v.mem)))
        if o is not None and o.kind == "list" and o.elts is not None and not o.summary:
            return const(len(o.elts), v.deps)
        if o is not None and o.kind == "inst" and isinstance(o.cls, ClassInfo):
            f = o.cls.lookup("__len__")
            if isinstance(f, FunctionInfo):
                return I.call_function(f, [], {}, st, node, selfv=V(mem=v.mem)) or scalar("int", v.deps)
    if is_arr(I, v, st):
        ax = v.f.get("ax")
        if ax:
            r = label_len(I, ax[0])
            return r.dep(v.deps)
    return V(frozenset(["int"]), deps=v.deps, f={"deg": 0, "sgn": "+", "vn": I.intern("len", I.vn_of(v))})


def b_range(I, args, st, node):
    deps = I.deps_of(args, {})
    if args and all(a.const is not NC and isinstance(a.const, int) for a in args):
        try:
            r = range(*[a.const for a in args])
            if len(r) <= UNROLL_RANGE:
                return V(frozenset(["tuple"]), elts=tuple(const(i, deps) for i in r), deps=deps)
        except Exception:
            pass
    hi = args[1] if len(args) > 1 else (args[0] if args else None)
    e = V(frozenset(["int"]), deps=deps, f={"deg": 0, "vn": I.fresh_vn(), "rng": ("range", I.vn_of(hi) if hi is not None else None)})
    return I.mklist(st, node, None, e, deps=deps, tag="range")


UNROLL_RANGE = 12


# ---- containers -------------------------------------------------------------------------
def container_method(I, name, m, kind, args, kw, st, node, fv):
    o = st.heap.get(m)
    deps = alldeps(I, args, kw)
    if o is None:
        return unknown(deps)
    a0 = args[0] if args else None

    def write(val=None):
        I.emit("write", m, f".{name}()", node, st, val, info=a0 if name == "setdefault" else None)

    def upd(fn):
        x = st.heap[m].clone()
        x.ver = I.tick()
        fn(x)
        st.heap[m] = x

    def joined(x):
        e = x.elem
        for y in x.elts or ():
            e = jopt(e, y)
        return e

    if kind == "list":
        if name == "append" and a0 is not None:
            write(a0)
            v = a0.dep(st.pc)

            def f(x):
                if x.elts is not None and not x.summary and len(x.elts) < 48:
                    x.elts = x.elts + (v,)
                else:
                    x.elem, x.elts = jopt(joined(x), v), None
            upd(f)
            return const(None)
        if name in ("extend",) and a0 is not None:
            write(a0)
            ex, el = I.iterate(a0, st, node)

            def f(x):
                if x.elts is not None and ex is not None and not x.summary and len(x.elts) + len(ex) < 48:
                    x.elts = x.elts + tuple(e.dep(st.pc) for e in ex)
                else:
                    e = joined(x)
                    for y in ex or ():
                        e = jopt(e, y)
                    if el is not None:
                        e = jopt(e, el)
                    x.elem, x.elts = (e.dep(st.pc) if e is not None else None), None
            upd(f)
            return const(None)
        if name == "insert" and len(args) == 2:
            write(args[1])

            def f(x):
                if x.elts is not None and args[0].const == 0 and not x.summary:
                    x.elts = (args[1],) + x.elts
                else:
                    x.elem, x.elts = jopt(joined(x), args[1]), None
            upd(f)
            return const(None)
        if name in ("remove", "pop", "clear", "sort", "reverse"):
            write(a0)
            e = joined(o)

            def f(x):
                if name == "clear":
                    x.elts, x.elem = (() if not x.summary else None), None
                elif name in ("remove", "pop"):
                    if x.elts is not None and name == "pop" and not x.summary and (a0 is None or a0.const is not NC):
                        l = list(x.elts)
                        try:
                            l.pop(*([a0.const] if a0 is not None else []))
                            x.elts = tuple(l)
                            return
                        except Exception:
                            pass
                    x.elem, x.elts = joined(x), None
                else:
                    if x.elts is not None:
                        x.elts = tuple(e for _ in x.elts)
            old = o
            if name == "pop" and old.elts and (a0 is None or (a0.const is not NC and isinstance(a0.const, int) and -len(old.elts) <= a0.const < len(old.elts))):
                e = old.elts[-1 if a0 is None else a0.const]
            upd(f)
            return (e if e is not None else unknown(deps)) if name == "pop" else const(None)
        if name == "copy":
            return I.mklist(st, node, o.elts if not o.summary else None, joined(o) if o.elts is None or o.summary else None, deps=fv.deps)
        if name == "index":
            return V(frozenset(["int"]), deps=deps | fv.deps | (joined(o).deps if joined(o) is not None else EMPTY), f={"deg": 0})
        if name == "count":
            return scalar("int", deps | fv.deps, deg=0)
        return unknown(deps)
    if kind == "set":
        if name in ("add", "update", "discard", "remove", "clear", "pop", "difference_update", "intersection_update"):
            write(a0)
            if name in ("add", "update") and a0 is not None:
                v = a0 if name == "add" else (I.iterate(a0, st, node)[1] or unknown(deps))
                upd(lambda x: setattr(x, "elem", jopt(joined(x), v)))
            return const(None) if name != "pop" else (joined(o) or unknown(deps))
        if name in ("union", "difference", "intersection", "copy", "symmetric_difference"):
            e = joined(o)
            for a in args:
                e = jopt(e, I.iterate(a, st, node)[1])
            return I.mklist(st, node, None, e, deps=deps | fv.deps, kind="set")
        return unknown(deps)
    # dict
    if name in ("keys",):
        exact = [const(k) for k in o.fields]
        if not o.open and o.elem is None:
            return I.mklist(st, node, exact, deps=fv.deps)
        e = o.key
        for x in exact:
            e = jopt(e, x)
        return I.mklist(st, node, None, e if e is not None else unknown(fv.deps), deps=fv.deps)
    if name in ("values",):
        if not o.open and o.elem is None:
            return I.mklist(st, node, list(o.fields.values()), deps=fv.deps)
        e = o.elem
        for x in o.fields.values():
            e = jopt(e, x)
        return I.mklist(st, node, None, e if e is not None else unknown(fv.deps), deps=fv.deps)
    if name in ("items",):
        pairs = [V(frozenset(["tuple"]), elts=(const(k), v), deps=v.deps) for k, v in o.fields.items()]
        if not o.open and o.elem is None:
            return I.mklist(st, node, pairs, deps=fv.deps)
        k = o.key if o.key is not None else unknown(fv.deps)
        v = o.elem if o.elem is not None else None
        for p in pairs:
            k = jopt(k, p.elts[0])
            v = jopt(v, p.elts[1])
        return I.mklist(st, node, None, V(frozenset(["tuple"]), elts=(k, v if v is not None else unknown(fv.deps)), deps=fv.deps), deps=fv.deps)
    if name in ("get", "pop", "setdefault"):
        k = a0
        dflt = args[1] if len(args) > 1 else kw.get("default", const(None))
        if name != "get":
            write(dflt)
        r = None
        known = k is not None and k.const is not NC and isinstance(k.const, (str, int))
        if known and k.const in o.fields:
            r = o.fields[k.const]
            if o.summary or o.open and name == "setdefault":
                r = jopt(r, dflt) if name == "setdefault" else r
        elif known and not o.open and o.elem is None:
            r = dflt
        else:
            r = jopt(o.elem, dflt)
            for x in o.fields.values():
                r = jopt(r, x)
            if o.open and o.elem is None:
                r = jopt(r, unknown(deps))
        if name == "pop" and known:
            upd(lambda x: x.fields.pop(k.const, None))
            if isinstance(o.cls, tuple) and o.cls[1] in st.heap:
                I.emit("del", o.cls[1], k.const, node, st)
                x = st.heap[o.cls[1]].clone()
                x.fields.pop(k.const, None)
                st.heap[o.cls[1]] = x
        if name == "setdefault":
            def f(x):
                if known:
                    if k.const not in x.fields:
                        x.fields[k.const] = dflt
                else:
                    x.elem = jopt(x.elem, dflt)
                    x.key = jopt(x.key, k)
                    x.open = True
            upd(f)
            if not known:
                r = st.heap[m].elem
                for x in st.heap[m].fields.values():
                    r = jopt(r, x)
        if known and isinstance(k.const, str):
            r = r.dep(frozenset([f"K:{k.const}"]))
        return r.dep(fv.deps)
    if name in ("update", "clear", "popitem"):
        write(a0)
        if name == "update":
            def f(x):
                for k, v in kw.items():
                    x.fields[k] = v
                if a0 is not None:
                    got = False
                    for mm in a0.mem:
                        s = st.heap.get(mm)
                        if s is not None and s.kind == "dict":
                            got = True
                            for k, v in s.fields.items():
                                x.fields[k] = v if not x.summary else jopt(x.fields.get(k), v)
                            x.elem = jopt(x.elem, s.elem)
                            x.key = jopt(x.key, s.key)
                            x.open = x.open or s.open
                    if not got:
                        x.open = True
            old = st.heap[m].fields
            upd(f)
            if isinstance(o.cls, tuple):
                for k, v in st.heap[m].fields.items():
                    if isinstance(k, str) and v is not old.get(k):
                        I.set_field(st, o.cls[1], k, v, node)
        elif name == "clear":
            def f(x):
                x.fields, x.elem, x.key, x.open = {}, None, None, False
            upd(f)
        return const(None)
    if name == "copy":
        oid = I.alloc(st, "dict", node)
        c = o.clone()
        c.cls = None if isinstance(c.cls, tuple) else c.cls
        c.summary = st.heap[oid].summary
        c.origin = None
        c.ver = I.clock
        st.heap[oid] = c
        return V(mem=frozenset([oid]), deps=fv.deps, ver=I.clock)
    return unknown(deps)


def prim_method(I, name, recv, args, kw, st, node):
    deps = recv.deps | I.deps_of(args, kw)
    if recv.const is not NC and isinstance(recv.const, str) and all(a.const is not NC for a in args) and not kw:
        if name in ("startswith", "endswith", "lower", "upper", "strip", "lstrip", "rstrip", "replace", "split", "join", "isidentifier"):
            try:
                r = getattr(recv.const, name)(*[a.const for a in args])
                if isinstance(r, (str, bool, int)):
                    return const(r, deps)
            except Exception:
                pass
    for a in args:
        deps = deps | I.content(a, st).deps
    if name in ("encode", "decode", "join", "format", "lower", "upper", "strip", "replace", "ljust", "rjust", "hexdigest"):
        return scalar("str", deps)
    if name in ("startswith", "endswith"):
        return scalar("bool", deps)
    if recv.elts is not None and name in ("index", "count"):
        return scalar("int", deps)
    if name == "split":
        return I.mklist(st, node, None, scalar("str", deps), deps=deps)
    return unknown(deps)


# ---- array methods -----------------------------------------------------------------------
@posted("method")
def array_method(I, name, b, args, kw, st, node):
    b = I.norm(b, st)
    deps = b.deps | I.deps_of(args, kw)
    if name in ARR_INPLACE:
        for m in b.mem:
            if m in st.heap and st.heap[m].kind == "buf":
                val = args[0] if args and name in ("fill",) else (args[1] if len(args) > 1 and name == "put" else None)
                if name == "sort" or name == "partition":
                    I.emit("write", m, f".{name}()", node, st, None)
                    o = st.heap[m].clone()
                    o.ver = I.tick()
                    o.st = {k: x for k, x in b.f.items() if k in CONTENT and k not in ("vn", "mk")}
                    st.heap[m] = o
                else:
                    I.buf_store(st, m, val if val is not None else unknown(deps), node, whole=name == "fill")
        return const(None)
    if name in ("append", "extend", "insert", "remove", "pop", "clear", "reverse", "update", "setdefault", "add"):
        # list/dict method on a possibly-list symbolic argument
        for m in b.mem:
            o = st.heap.get(m)
            if o is not None and o.kind == "buf" and o.maybe_list:
                I.emit("write", m, f".{name}()", node, st, args[0] if args else None)
        return unknown(deps)
    table = {"copy": "numpy.copy", "astype": None, "reshape": "numpy.reshape", "ravel": "numpy.ravel", "flatten": None,
             "sum": "numpy.sum", "min": "numpy.min", "max": "numpy.max", "mean": "numpy.mean", "any": "numpy.any", "all": "numpy.all",
             "prod": "numpy.prod", "dot": "numpy.dot", "round": "numpy.round", "argsort": "numpy.argsort", "argmin": "numpy.argmin", "argmax": "numpy.argmax",
             "nonzero": "numpy.nonzero", "cumsum": "numpy.cumsum", "transpose": "numpy.transpose", "swapaxes": "numpy.swapaxes", "squeeze": "numpy.squeeze",
             "repeat": "numpy.repeat", "take": "numpy.take", "clip": "numpy.clip", "searchsorted": "numpy.searchsorted", "std": "numpy.std", "conj": "numpy.conj", "diagonal": "numpy.diagonal", "compress": "numpy.compress"}
    if name == "astype":
        A = bindargs(args, kw, ["dtype", "order", "casting", "subok", "copy"])
        f = {k: x for k, x in b.f.items() if k in CONTENT or k in ("ax",)}
        f["dt"] = dtype_of(I, A.get("dtype"))
        h = I.hooks.get("cast")
        if h:
            h(I, b, f["dt"], node, st)
        f = {k: x for k, x in f.items() if x is not None}
        r = I.buf(st, node, deps, f, "astype")
        cp = A.get("copy")
        if cp is not None and cp.const is False:
            r = r.clone(mem=r.mem | b.mem)
        return r
    if name == "flatten":
        f = {k: x for k, x in b.f.items() if k in CONTENT or k == "dt"}
        f["vn"] = I.intern("flatten", I.vn_of(b))
        ax = b.f.get("ax")
        return mk(I, st, node, deps, (("flat",) + tuple(ax),) if ax is not None else ("?",), f, tag="flatten")
    if name == "tolist":
        c = I.content(b, st)
        ax = axes(I, b, st)
        if ax is not None and len(ax) == 2:
            inner = I.mklist(st, node, None, c, deps=deps, tag="tl")
            return I.mklist(st, node, None, inner, deps=deps)
        return I.mklist(st, node, None, c, deps=deps)
    if name in ("item",):
        c = I.content(b, st)
        return c.dep(deps)
    if name in ("__len__",):
        return length(I, b, st, node)
    if name == "view":
        return b
    if name in ("tobytes", "tostring", "dumps"):
        return scalar("str", deps)
    if name in ("setflags",):
        return const(None)
    if name == "reshape":
        if len(args) > 1:
            args = [V(frozenset(["tuple"]), elts=tuple(args), deps=I.deps_of(args, {}))]
    if name == "transpose" and args:
        if len(args) > 1:
            args = [V(frozenset(["tuple"]), elts=tuple(args))]
    if name in table and table[name]:
        return ext_function(I, table[name], [b] + list(args), kw, st, node)
    if name in ("keys", "values", "items", "get", "lower", "upper", "format", "index", "count"):
        return unknown(deps)
    return unknown(deps)


# ---- numpy / scipy functions ----------------------------------------------------------------
UFUNC_KEEP = {"abs", "absolute", "fabs", "floor", "ceil", "rint", "fix", "trunc", "negative", "positive", "conj", "real", "nan_to_num"}
UFUNC_DEG0 = {"sin", "cos", "tan", "exp", "log", "arctan", "arcsin", "arccos", "deg2rad", "rad2deg", "radians", "degrees", "sign", "log2", "log10", "sinh", "cosh", "tanh", "expm1", "log1p"}
UFUNC_BOOL = {"isfinite", "isinf", "isnan", "logical_not", "invert"}
UFUNC_BIN = {"add": ast.Add, "subtract": ast.Sub, "multiply": ast.Mult, "divide": ast.Div, "true_divide": ast.Div, "power": ast.Pow, "mod": ast.Mod, "remainder": ast.Mod, "floor_divide": ast.FloorDiv, "bitwise_and": ast.BitAnd, "bitwise_or": ast.BitOr}
UFUNC_CMP = {"less": ast.Lt, "less_equal": ast.LtE, "greater": ast.Gt, "greater_equal": ast.GtE, "equal": ast.Eq, "not_equal": ast.NotEq}
REDUCE_KEEP = {"sum", "min", "max", "mean", "amin", "amax", "nanmin", "nanmax", "nansum", "median", "ptp", "std", "average"}
REDUCE_BOOL = {"any", "all"}
REDUCE_INT = {"argmin", "argmax", "count_nonzero"}


def out_write(I, A, val, st, node):
    o = A.get("out")
    if o is None or o.isnone:
        return None
    if o.elts is not None and len(o.elts) == 1:
        o = o.elts[0]
    for m in o.mem:
        if m in st.heap and st.heap[m].kind == "buf":
            I.buf_store(st, m, val, node, whole=True)
    return o


def reduce_axes(I, ax, axis):
    if ax is None:
        return None
    if axis is None or axis.isnone:
        return ()
    if axis.const is not NC and isinstance(axis.const, int):
        i = axis.const
        if -len(ax) <= i < len(ax):
            i %= len(ax)
            return ax[:i] + ax[i + 1:]
        return None
    if axis.elts is not None and all(e.const is not NC for e in axis.elts):
        idx = {e.const % len(ax) for e in axis.elts if len(ax)}
        return tuple(a for i, a in enumerate(ax) if i not in idx)
    return None


@posted("ext")
def ext_function(I, name, args, kw, st, node, star=None, dstar=None):
    deps = alldeps(I, args, kw, star, dstar)
    h = I.hooks.get("ext")
    if h:
        r = h(I, name, args, kw, st, node)
        if r is not None:
            return r
    mod, _, fn = name.rpartition(".")
    if name.startswith("numpy."):
        g = NP.get(name[6:])
        a0 = args[0] if args else None
        if g is not None:
            if a0 is None and star is not None:
                return unknown(deps | st.pc)
            return g(I, args, kw, st, node, deps)
        if mod == "numpy":
            if fn in UFUNC_BIN and len(args) >= 2:
                r = binop(I, UFUNC_BIN[fn](), I.norm(args[0], st), I.norm(args[1], st), node, st)
                A = bindargs(args[2:], kw, ["out"])
                o = out_write(I, A, r, st, node)
                return o if o is not None else r
            if fn in UFUNC_CMP and len(args) >= 2:
                return compare(I, UFUNC_CMP[fn](), I.norm(args[0], st), I.norm(args[1], st), node, st)
            if fn in ("logical_and", "logical_or", "logical_xor") and len(args) >= 2:
                op = {"logical_and": ast.BitAnd, "logical_or": ast.BitOr, "logical_xor": ast.BitXor}[fn]()
                r = binop(I, op, I.norm(args[0], st), I.norm(args[1], st), node, st).with_f(dt="bool")
                A = bindargs(args[2:], kw, ["out"])
                o = out_write(I, A, r, st, node)
                return o if o is not None else r
            if fn in ("maximum", "minimum", "fmax", "fmin") and len(args) >= 2:
                r = _minmax(I, {"maximum": "max", "fmax": "max"}.get(fn, "min"), args[:2], st, node, deps)
                ax = ax_broadcast(I, axes(I, args[0], st), axes(I, args[1], st), node, fn)
                if any(is_seq(I, a, st) for a in args[:2]):
                    r = mk(I, st, node, deps, ax, r.f, tag=fn)
                A = bindargs(args[2:], kw, ["out"])
                o = out_write(I, A, r, st, node)
                return o if o is not None else r
            if fn in UFUNC_KEEP | UFUNC_DEG0 | UFUNC_BOOL | {"sqrt", "square", "cbrt", "reciprocal"} and a0 is not None:
                return ufunc1(I, fn, args, kw, st, node, deps)
            if fn in REDUCE_KEEP | REDUCE_BOOL | REDUCE_INT | {"prod"} and a0 is not None:
                return reduction(I, fn, args, kw, st, node, deps)
            if fn in KINDS or fn in RANK or fn in ("dtype", "result_type", "promote_types"):
                if fn in ("dtype",):
                    return V(frozenset(["dtype"]), deps=deps, f={"dtv": dtype_of(I, a0)} if a0 is not None and dtype_of(I, a0) is not None else {})
                if fn in ("result_type", "promote_types"):
                    return V(frozenset(["dtype"]), deps=deps, f={"dtv": ("dyn", I.fresh_vn())})
                if a0 is not None:
                    c = I.content(a0, st)
                    return c.with_f(dt=KINDS.get(fn, fn)).dep(deps)
        return generic(I, args, kw, st, node, deps, star)
    if name in ("copy.deepcopy",):
        return deep_copy(I, args[0], st, node)
    if name == "object.__new__":
        for f in (args[0].fn or ()) if args else ():
            if f[0] == "class":
                return V(mem=frozenset([I.alloc(st, "inst", node, cls=f[1], tag=f[1].name)]), ver=I.clock)
        return unknown(deps)
    if name == "copy.copy":
        return shallow_copy(I, args[0], st, node)
    if name.startswith("math."):
        if fn in ("sqrt", "floor", "ceil", "fabs", "sin", "cos", "exp", "log", "radians", "degrees", "atan"):
            return ufunc1(I, {"fabs": "abs", "atan": "arctan"}.get(fn, fn), args, kw, st, node, deps)
        if fn in ("hypot", "dist"):
            c = None
            for a in args:
                c = jopt(c, I.content(a, st))
            return scalar("float", deps, **{k: v for k, v in {"deg": c.f.get("deg") if c else None, "rnd": "raw"}.items() if v is not None})
        if fn == "prod":
            return scalar("num", deps)
        if fn == "isfinite" or fn == "isclose" or fn == "isinf" or fn == "isnan":
            return scalar("bool", deps)
        return scalar("num", deps)
    if name.startswith("itertools."):
        return itertools_fn(I, fn, args, kw, st, node, deps, star)
    if name.startswith("functools."):
        if fn == "partial" and args:
            return V(fn=(("partial", args[0], tuple(args[1:]), tuple(kw.items())),), deps=deps)
        if fn == "reduce" and len(args) >= 2:
            ex, el = I.iterate(args[1], st, node)
            seq = ex if ex is not None else [el, el]
            acc = args[2] if len(args) > 2 else None
            for x in seq:
                if acc is None:
                    acc = x
                else:
                    r = I.call(args[0], [acc, x], {}, st, node)
                    if r is None:
                        return None
                    acc = r if ex is not None else jopt(acc, r)
            return acc if acc is not None else unknown(deps)
        return unknown(deps)
    if name.startswith("operator."):
        ops = {"add": ast.Add, "sub": ast.Sub, "mul": ast.Mult, "truediv": ast.Div, "matmul": ast.MatMult, "iadd": ast.Add, "and_": ast.BitAnd, "or_": ast.BitOr}
        if fn in ops and len(args) == 2:
            return binop(I, ops[fn](), args[0], args[1], node, st)
        cm = {"lt": ast.Lt, "le": ast.LtE, "gt": ast.Gt, "ge": ast.GtE, "eq": ast.Eq, "ne": ast.NotEq}
        if fn in cm and len(args) == 2:
            return compare(I, cm[fn](), args[0], args[1], node, st)
        if fn == "itemgetter" or fn == "attrgetter":
            return V(fn=(("opget", fn, tuple(args)),), deps=deps)
        return unknown(deps)
    if name.startswith("collections."):
        if fn in ("OrderedDict", "defaultdict", "Counter"):
            r = builtin(I, "dict", [a for a in args if not a.fn], kw, st, node)
            o = st.heap[next(iter(r.mem))].clone()
            if fn == "defaultdict" and args:
                el = I.call(args[0], [], {}, st, node)
                o.elem = jopt(o.elem, el)
                o.open = True
            st.heap[next(iter(r.mem))] = o
            return r
        if fn == "deque":
            return builtin(I, "list", args, {}, st, node)
        return unknown(deps)
    if name.endswith("cdist") or name.endswith("pdist"):
        if len(args) >= 2:
            ca, cb = I.content(args[0], st), I.content(args[1], st)
            d = deg_unify(I, ca.f.get("deg"), cb.f.get("deg"), node, "cdist")
            aa, ab = axes(I, args[0], st), axes(I, args[1], st)
            ax = None
            if aa and ab:
                lab_unify(I, aa[-1], ab[-1], node, "cdist")
                ax = (aa[0], ab[0])
            return mk(I, st, node, deps, ax, {"deg": d, "rnd": "raw", "dt": "float64", "role": "dist", "vn": I.fresh_vn()}, tag="cdist")
        return generic(I, args, kw, st, node, deps, star)
    if name.startswith("scipy.spatial.") and fn in ("cKDTree", "KDTree", "ConvexHull", "Voronoi", "Delaunay"):
        oid = I.alloc(st, "ext", node, cls=name)
        o = st.heap[oid].clone()
        if args:
            p = args[0]
            if fn in ("ConvexHull", "Voronoi", "Delaunay"):
                # qhull keeps a reference to a float array it is given
                if not any(st.heap[m].kind == "buf" for m in p.mem if m in st.heap):
                    ax = axes(I, p, st)
                    c = I.content(p, st)
                    p = mk(I, st, node, p.deps, ax, {"deg": c.f.get("deg"), "dt": "float64"}, tag="hullpts")
            o = st.heap[oid].clone()
            o.fields["__points__"] = p
        st.heap[oid] = o
        return V(mem=frozenset([oid]), deps=deps)
    if name.startswith("scipy.sparse."):
        I.emit("sparse", None, fn, node, st, None, info=(args, kw))
        for a in args:
            deps = deps | _deepdeps(I, a, st)
        oid = I.alloc(st, "ext", node, cls=name)
        return V(mem=frozenset([oid]), deps=deps)
    if name.startswith("pickle."):
        if fn == "dumps" and args:
            oid = I.alloc(st, "ext", node, cls=name)
            o = st.heap[oid].clone()
            o.fields["__pickled__"] = deep_copy(I, args[0], st, node, pickling=True)
            st.heap[oid] = o
            return V(mem=frozenset([oid]), deps=deps)
        if fn == "loads" and args:
            for m in args[0].mem:
                o = st.heap.get(m)
                if o is not None and "__pickled__" in o.fields:
                    return deep_copy(I, o.fields["__pickled__"], st, node, pickling=None)
        if fn in ("load", "loads"):
            return unknown(deps)
        return const(None)
    if name.startswith("warnings.") or name.startswith("logging."):
        return unknown(deps)
    if name.startswith("itertools"):
        return unknown(deps)
    hh = I.hooks.get("unknown_call")
    if hh:
        hh(I, V(fn=(("ext", name),)), args, kw, st, node)
    oid = I.alloc(st, "ext", node, cls=name)
    o = st.heap[oid].clone()
    o.open = True
    st.heap[oid] = o
    return V(frozenset(["any"]), mem=frozenset([oid]), deps=deps | st.pc)


def _deepdeps(I, v, st):
    return I.content(v, st).deps | v.deps


def generic(I, args, kw, st, node, deps, star=None):
    """Unmodelled numeric function: fresh result, no effects."""
    for a in args:
        deps = deps | I.content(a, st).deps
    return I.buf(st, node, deps, {}, "generic").clone(prim=frozenset(["any"]))


def whole(I, fn, c, node):
    """Rounding to whole numbers makes sense for pure numbers only."""
    d = c.f.get("deg")
    if num(d) and d != 0:
        I.report("deg", node, f"{fn} rounds a quantity of length dimension {d} to whole numbers (dimension 0)")


def ufunc1(I, fn, args, kw, st, node, deps):
    a = I.norm(args[0], st)
    c = I.content(a, st)
    f = {}
    d = c.f.get("deg")
    if a.const is not NC and isinstance(a.const, (int, float)) and not kw:
        try:
            mf = {"sqrt": math.sqrt, "floor": math.floor, "ceil": math.ceil, "abs": abs, "sin": math.sin, "cos": math.cos, "square": lambda x: x * x}.get(fn)
            if mf:
                return const(mf(a.const), deps)
        except Exception:
            pass
    if fn == "sqrt":
        f["deg"] = Fraction(d, 1) / 2 if num(d) else d
        if num(f["deg"]) and Fraction(f["deg"]).denominator == 1:
            f["deg"] = int(f["deg"])
        f["rnd"] = "raw"
        f["dt"] = "float64"
    elif fn == "square":
        f["deg"] = 2 * d if num(d) else d
        f["dt"] = a.f.get("dt")
    elif fn == "reciprocal":
        f["deg"] = -d if num(d) else None
    elif fn in UFUNC_KEEP:
        if fn in ("floor", "ceil", "rint", "fix", "trunc"):
            whole(I, fn, c, node)
        f["deg"] = d
        f["dt"] = a.f.get("dt")
        if fn in ("abs", "absolute", "fabs", "real"):
            f["rnd"] = c.f.get("rnd")
        if fn in ("abs", "absolute", "fabs"):
            f["sgn"] = "+"
    elif fn in UFUNC_DEG0:
        if num(d) and d != 0 and fn not in ("sign", "deg2rad", "rad2deg", "radians", "degrees"):
            I.report("deg", node, f"{fn} of a quantity of length dimension {d}")
        f["deg"] = 0
        f["dt"] = "float64"
    elif fn in UFUNC_BOOL:
        f["dt"] = "bool"
    f["vn"] = I.intern("uf", fn, I.vn_of(a))
    for h in I.domains:
        h.ufunc(I, fn, a, c, f, node, st)
    f = {k: x for k, x in f.items() if x is not None}
    A = bindargs(args[1:], kw, ["out"])
    ax = axes(I, a, st)
    if is_seq(I, a, st):
        r = mk(I, st, node, deps | c.deps, ax, f, tag=fn)
        if a.prim - {"tuple", "none"} and ax is None:
            r = r.clone(prim=frozenset(["num"]))
    else:
        r = V(frozenset(["bool" if fn in UFUNC_BOOL else "num"]) | (a.prim & {"any"}), deps=deps, f=f)
    o = out_write(I, A, r, st, node)
    return o if o is not None else r


def reduction(I, fn, args, kw, st, node, deps):
    A = bindargs(args, kw, ["a", "axis", "dtype", "out"] if fn in ("sum", "prod", "mean") else ["a", "axis", "out"])
    a = I.norm(A.get("a", args[0]), st)
    c = I.content(a, st)
    ax = axes(I, a, st)
    if fn == "norm":
        pass
    rax = reduce_axes(I, ax, A.get("axis"))
    kd = A.get("keepdims")
    if kd is not None and kd.const is True and ax is not None:
        axis = A.get("axis")
        if axis is None or axis.isnone:
            rax = (1,) * len(ax)
        elif axis.const is not NC and isinstance(axis.const, int) and -len(ax) <= axis.const < len(ax):
            i = axis.const % len(ax)
            rax = ax[:i] + (1,) + ax[i + 1:]
    f = {}
    if fn in REDUCE_KEEP:
        f["deg"] = c.f.get("deg")
        f["dt"] = a.f.get("dt") if fn in ("min", "max", "amin", "amax") else None
        if fn in ("min", "max", "amin", "amax"):
            f["rnd"] = c.f.get("rnd")
            f["role"] = c.f.get("role")
        if A.get("dtype") is not None and fn in ("sum", "prod"):
            f["dt"] = dtype_of(I, A["dtype"])
        elif fn == "sum" and a.f.get("dt") == "bool":
            f["dt"] = "int64"
    elif fn in REDUCE_BOOL:
        f["dt"] = "bool"
    elif fn in REDUCE_INT:
        f["deg"] = 0
        f["dt"] = "int64"
    elif fn == "prod":
        d = c.f.get("deg")
        if d == 0:
            f["deg"] = 0
        elif num(d) and ax is not None and len(ax) == 1 and (isinstance(ax[0], int) or (ax[0] in WL and I.dim)):
            f["deg"] = d * (ax[0] if isinstance(ax[0], int) else I.dim)
    f["vn"] = I.intern("red", fn, I.vn_of(a), I.vn_of(A["axis"]) if "axis" in A else "none")
    if fn in ("max", "amax", "min", "amin") and "axis" not in A:
        f["rng"] = (fn[-3:], I.vn_of(a))
    for h in I.domains:
        h.reduce(I, fn, a, c, f, node, st)
    f = {k: x for k, x in f.items() if x is not None}
    axis = A.get("axis")
    deps = deps | c.deps
    if axis is None or axis.isnone:
        if kd is None:
            r = V(frozenset(["bool" if fn in REDUCE_BOOL else "num"]), deps=deps | st.pc, f=f)
        else:
            r = mk(I, st, node, deps, rax, f, tag=fn)
    else:
        r = mk(I, st, node, deps, rax, f, tag=fn, boolean=fn in REDUCE_BOOL)
    o = out_write(I, A, r, st, node)
    return o if o is not None else r


def itertools_fn(I, fn, args, kw, st, node, deps, star):
    def elem(a):
        ex, el = I.iterate(a, st, node)
        e = el
        for x in ex or ():
            e = jopt(e, x)
        return ex, (e if e is not None else unknown(a.deps))

    if fn == "product":
        rep = kw.get("repeat")
        if star is not None:
            _, e = elem(star)
            return I.mklist(st, node, None, I.mklist(st, node, None, e, deps=deps, tag="prodt"), deps=deps, tag="prod")
        parts = [elem(a) for a in args]
        n = 1
        if rep is not None:
            n = rep.const if rep.const is not NC and isinstance(rep.const, int) else None
        if n is not None and n * len(parts) <= 6:
            t = V(frozenset(["tuple"]), elts=tuple(e for _ in range(n) for _, e in parts), deps=deps)
            # distinct value numbers for the independent components
            t = V(t.prim, elts=tuple(x.with_f(vn=I.fresh_vn()) if x.const is NC else x for x in t.elts), deps=deps)
            if all(ex is not None for ex, _ in parts) and n == 1:
                import itertools as it
                size = 1
                for ex, _ in parts:
                    size *= max(len(ex), 1)
                if size <= 16:
                    return V(frozenset(["tuple"]), elts=tuple(V(frozenset(["tuple"]), elts=tuple(c), deps=deps) for c in it.product(*[ex for ex, _ in parts])), deps=deps)
            return I.mklist(st, node, None, t, deps=deps, tag="prod")
        e = None
        for _, x in parts:
            e = jopt(e, x)
        return I.mklist(st, node, None, I.mklist(st, node, None, e or unknown(deps), deps=deps, tag="prodt"), deps=deps, tag="prod")
    if fn in ("combinations", "permutations", "combinations_with_replacement"):
        ex, e = elem(args[0])
        r = kw.get("r", args[1] if len(args) > 1 else None)
        if r is not None and r.const is not NC and isinstance(r.const, int) and r.const <= 6:
            if ex is not None and len(ex) <= 4:
                import itertools as it
                out = [V(frozenset(["tuple"]), elts=tuple(c), deps=deps) for c in getattr(it, fn)(ex, r.const)]
                if len(out) <= 12:
                    return V(frozenset(["tuple"]), elts=tuple(out), deps=deps)
            t = V(frozenset(["tuple"]), elts=tuple(e.with_f(vn=I.fresh_vn()) for _ in range(r.const)), deps=deps)
            return I.mklist(st, node, None, t, deps=deps, tag=fn)
        return I.mklist(st, node, None, I.mklist(st, node, None, e, deps=deps, tag=fn + "t"), deps=deps, tag=fn)
    if fn == "count":
        oid = I.alloc(st, "ext", node, cls="itertools.count")
        return V(mem=frozenset([oid]), deps=deps)
    if fn == "chain":
        e = None
        exs = []
        for a in args:
            ex, x = elem(a)
            if ex is None:
                exs = None
            elif exs is not None:
                exs = exs + ex
            e = jopt(e, x)
        if exs is not None and args:
            return I.mklist(st, node, exs, deps=deps, tag="chain")
        return I.mklist(st, node, None, e or unknown(deps), deps=deps, tag="chain")
    if fn in ("islice", "cycle", "takewhile", "dropwhile", "accumulate"):
        src = args[-1] if fn in ("takewhile", "dropwhile") else args[0]
        _, e = elem(src)
        return I.mklist(st, node, None, e, deps=deps, tag=fn)
    if fn == "repeat":
        return I.mklist(st, node, None, args[0], deps=deps, tag=fn)
    return unknown(deps)


def _protocol(I, m, o, st, node, memo, depth, pickling):
    """Copy of an instance whose class customises copying or pickling; None if it does not."""
    selfv = V(mem=frozenset([m]))

    def user(*names):
        for n in names:
            f = o.cls.lookup(n)
            if isinstance(f, FunctionInfo):
                return f
        return None

    def dc(x):
        return deep_copy(I, x, st, node, memo, depth + 1, pickling)

    f = user("__deepcopy__") if not pickling else None
    if f is not None:
        return I.call_function(f, [unknown()], {}, st, node, selfv=selfv) or unknown()
    f = user("__reduce_ex__", "__reduce__")
    state = None
    if f is not None:
        r = I.call_function(f, [const(4)] if f.name == "__reduce_ex__" else [], {}, st, node, selfv=selfv)
        if r is None or r.elts is None or len(r.elts) < 2:
            return unknown()
        a = dc(r.elts[1])
        new = I.call(r.elts[0], list(a.elts), {}, st, node) if a.elts is not None else unknown()
        if new is None or not new.mem:
            return unknown()
        state = r.elts[2] if len(r.elts) > 2 else None
        if state is None or state.isnone:
            return new
    else:
        g, s = user("__getstate__"), user("__setstate__")
        if g is None and s is None:
            return None
        if g is not None:
            state = I.call_function(g, [], {}, st, node, selfv=selfv)
        else:
            state = I.getattr_(selfv, "__dict__", st, node)
        if state is None:
            return unknown()
        new = V(mem=frozenset([I.alloc(st, "inst", node, cls=o.cls, tag=("dc", m))]), ver=I.clock)
    state = dc(state)
    s = user("__setstate__")
    if s is not None:
        I.call_function(s, [state], {}, st, node, selfv=new)
        return new
    for n in new.mem:
        for k in state.mem:
            d = st.heap.get(k)
            if d is not None and d.kind == "dict":
                for key, x in d.fields.items():
                    I.set_field(st, n, key, x, node)
    return new


def deep_copy(I, v, st, node, memo=None, depth=0, pickling=False):
    """Structure-preserving copy of everything reachable (pickling: by the pickle protocol; None: contents are plain)."""
    memo = {} if memo is None else memo
    v = I.norm(v, st)
    if v.elts is not None and not v.mem:
        return v.clone(elts=tuple(deep_copy(I, e, st, node, memo, depth + 1, pickling) for e in v.elts))
    if not v.mem or depth > 12:
        return v
    mem = set()
    for m in v.mem:
        o = st.heap.get(m)
        if o is None:
            continue
        if m in memo:
            mem.add(memo[m])
            continue
        if o.kind == "inst" and isinstance(o.cls, ClassInfo):
            r = _protocol(I, m, o, st, node, memo, depth, pickling) if pickling is not None else None
            if r is not None:
                mem |= r.mem
                if len(r.mem) == 1:
                    memo[m] = next(iter(r.mem))
                continue
        nid = I.alloc(st, o.kind, node, cls=o.cls, tag=("dc", m))
        memo[m] = nid
        mem.add(nid)
        c = o.clone()
        c.origin = None
        c.summary = st.heap[nid].summary
        c.ver = I.tick()
        c.st = None
        c.std = EMPTY
        c.cls = None if isinstance(c.cls, tuple) else c.cls
        st.heap[nid] = c
        c = c.clone()
        c.fields = {k: deep_copy(I, x, st, node, memo, depth + 1, pickling) for k, x in o.fields.items()}
        if o.elts is not None:
            c.elts = tuple(deep_copy(I, x, st, node, memo, depth + 1, pickling) for x in o.elts)
        if o.elem is not None:
            c.elem = deep_copy(I, o.elem, st, node, memo, depth + 1, pickling)
        if o.key is not None:
            c.key = deep_copy(I, o.key, st, node, memo, depth + 1, pickling)
        st.heap[nid] = c
    return v.clone(mem=frozenset(mem), ver=I.clock)


def shallow_copy(I, v, st, node):
    v = I.norm(v, st)
    if not v.mem:
        return v
    mem = set()
    for m in v.mem:
        o = st.heap.get(m)
        if o is None:
            continue
        if o.kind == "inst" and isinstance(o.cls, ClassInfo):
            dc = o.cls.lookup("__copy__")
            if isinstance(dc, FunctionInfo):
                r = I.call_function(dc, [], {}, st, node, selfv=V(mem=frozenset([m])))
                if r is not None:
                    mem |= r.mem
                continue
        nid = I.alloc(st, o.kind, node, cls=o.cls, tag=("sc", m))
        c = o.clone()
        c.origin = None
        c.summary = st.heap[nid].summary
        c.ver = I.tick()
        st.heap[nid] = c
        mem.add(nid)
    return v.clone(mem=frozenset(mem), ver=I.clock)


# ---- individual numpy models ----------------------------------------------------------------
NP = {}


def np_(*names):
    def deco(g):
        for n in names:
            NP[n] = g
        return g
    return deco


def cfacts(c, *extra):
    return {k: x for k, x in c.f.items() if k in ("deg", "tw", "rnd", "role", "dt", "aff", "mono", "sgn") + extra}


@np_("asarray", "asanyarray", "ascontiguousarray", "asfortranarray", "atleast_1d", "atleast_2d", "atleast_3d", "require")
def np_asarray(I, args, kw, st, node, deps):
    fn = node.func.attr if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) else "asarray"
    a = I.norm(args[0], st)
    same_dimension(I, a, st, node)
    A = bindargs(args, kw, ["a", "dtype", "order"])
    arrs = frozenset(m for m in a.mem if m in st.heap and st.heap[m].kind == "buf")
    others = a.mem - arrs
    out = None
    ax = axes(I, a, st)
    minrank = {"atleast_1d": 1, "atleast_2d": 2, "atleast_3d": 3}.get(fn, 0)

    def pad(x):
        if x is None:
            return None
        while len(x) < minrank:
            x = (1,) + tuple(x)
        return tuple(x)

    dt = dtype_of(I, A.get("dtype"))
    if arrs:
        aax = a.f.get("ax") if not (a.prim - {"none"} and "ax" not in a.f) else None
        f = dict(a.f)
        f.pop("ax", None)
        if pad(aax) is not None:
            f["ax"] = pad(aax)
        if aax is not None and pad(aax) != aax:
            f["vn"] = I.intern(fn, I.vn_of(a))
        if dt is not None and dt != a.f.get("dt"):
            # may convert; may also alias
            f["dt"] = dt
        out = V(EMPTY, NC, arrs, None, None, a.deps, f, a.ver)
    if others or a.elts is not None or (a.prim - {"none"}) or not arrs:
        c = I.content(a if not arrs else a.clone(mem=others), st)
        f = cfacts(c)
        f["vn"] = I.vn_of(a) if (a.const is NC and not a.elts and a.f.get("vn")) else I.intern(fn, I.vn_of(a))
        nax = pad(ax) if not arrs else (pad(axes(I, a.clone(mem=others), st)) if others else (pad(()) if a.prim and a.elts is None else pad(ax)))
        if arrs and out.f.get("ax") is None:
            nax = None
        if dt is not None:
            f["dt"] = dt
        elif c.prim <= {"int", "bool"} and c.prim:
            f.setdefault("dt", "int64")
        elif c.prim == {"float"}:
            f.setdefault("dt", "float64")
        if nax == ():
            nax = None
        fresh = mk(I, st, node, deps | c.deps, nax, f, tag="asarr")
        if arrs:
            out2 = join(out, fresh)
            if "ax" in out.f:
                out2 = out2.with_f(ax=out.f["ax"])
            out = out2
        else:
            out = fresh
    return out


def leaves(I, v, st, depth=0):
    """The scalars a nested list or tuple consists of; None if they are not all known."""
    out = []
    xs = v.elts
    if xs is None and len(v.mem) == 1:
        o = st.heap.get(next(iter(v.mem)))
        xs = o.elts if o is not None and o.kind == "list" else None
    if xs is None:
        return None if v.mem else [v]
    if depth > 3:
        return None
    for x in xs:
        y = leaves(I, x, st, depth + 1)
        if y is None:
            return None
        out += y
    return out


def same_dimension(I, a, st, node):
    """The numbers that make up one array have one dimension."""
    xs = leaves(I, a, st)
    ds = sorted({x.f["deg"] for x in xs if num(x.f.get("deg"))}) if xs and len(xs) <= 64 else ()
    if len(ds) > 1:
        I.report("deg", node, f"an array is made of quantities of length dimension {ds[0]} and of dimension {ds[-1]}")


@np_("array", "copy")
def np_array(I, args, kw, st, node, deps):
    A = bindargs(args, kw, ["a", "dtype"])
    if "object" in A:
        A.setdefault("a", A["object"])
    if "a" not in A:
        return generic(I, args, kw, st, node, deps)
    a = I.norm(A["a"], st)
    same_dimension(I, a, st, node)
    cp = A.get("copy")
    if cp is not None and cp.const is False:
        return np_asarray(I, [a], {k: v for k, v in kw.items() if k != "copy"}, st, node, deps)
    c = I.content(a, st)
    ax = axes(I, a, st)
    f = cfacts(c)
    vn = I.vn_of(a)
    f["vn"] = vn if vn is not None else I.fresh_vn()
    rr = _rowroles(I, a, st)
    dt = dtype_of(I, A.get("dtype")) if "dtype" in A else None
    if is_arr(I, a, st):
        f["dt"] = a.f.get("dt")
        for k in ("rowroles", "colroles", "mk"):
            if k in a.f:
                f[k] = a.f[k]
    if dt is not None:
        f["dt"] = dt
        h = I.hooks.get("cast")
        if h:
            h(I, a, dt, node, st)
    elif "dt" not in f or f["dt"] is None:
        if c.prim and c.prim <= {"int", "bool"}:
            f["dt"] = "int64"
        elif c.prim and c.prim <= {"int", "float"} and "float" in c.prim:
            f["dt"] = "float64"
    if rr is not None:
        f["rowroles"] = rr
    if ax == ():
        ax = None
    f = {k: x for k, x in f.items() if x is not None}
    nd = A.get("ndmin")
    r = mk(I, st, node, deps | c.deps, ax, f, tag="array")
    if not is_seq(I, a, st) and a.prim and "any" not in a.prim:
        r = r.with_f(ax=None)
    return r


def _rowroles(I, a, st):
    """Row-wise facts of an array built from a literal list of rows."""
    elts = None
    if a.elts is not None and not a.mem:
        elts = a.elts
    elif len(a.mem) == 1:
        o = st.heap.get(next(iter(a.mem)))
        if o is not None and o.kind == "list" and o.elts is not None and not o.summary:
            elts = o.elts
    if elts is None or not 1 <= len(elts) <= 6:
        return None
    out = []
    for e in elts:
        c = I.content(e, st)
        out.append({k: x for k, x in c.f.items() if k in ("deg", "tw", "rnd", "role", "mono", "aff", "vn") and x is not None})
    return tuple(out)


@np_("zeros", "ones", "empty", "full", "eye", "identity")
def np_zeros(I, args, kw, st, node, deps):
    fn = node.func.attr if isinstance(node.func, ast.Attribute) else "zeros"
    A = bindargs(args, kw, ["shape", "fill", "dtype"] if fn == "full" else ["shape", "dtype"])
    if "fill_value" in A:
        A["fill"] = A["fill_value"]
    if "N" in A:
        A["shape"] = A["N"]
    ax = shape_axes(I, A.get("shape"), st)
    f = {"vn": I.fresh_vn()}
    if fn in ("zeros", "empty"):
        f["deg"] = "poly"
        f["rnd"] = "poly"
        f["mono"] = EMPTY
    elif fn in ("ones", "eye", "identity"):
        f["deg"] = 0
        f["mono"] = EMPTY
    if fn in ("eye", "identity") and ax is not None and len(ax) == 1:
        ax = ax * 2
    if fn == "full" and "fill" in A:
        c = I.content(A["fill"], st)
        f.update(cfacts(c))
        f["fillvn"] = I.vn_of(A["fill"])
        deps = deps | c.deps
    dt = dtype_of(I, A.get("dtype")) if "dtype" in A and fn not in ("eye", "identity") else None
    if dt is None and "dtype" in kw:
        dt = dtype_of(I, kw["dtype"])
    if dt is None and fn != "full":
        dt = "float64"
    if dt is not None:
        f["dt"] = dt
    elif fn == "full" and "fill" in A:
        f["dt"] = "int64" if A["fill"].prim <= {"int"} else ("float64" if A["fill"].prim <= {"float"} else None)
    r = mk(I, st, node, deps, ax if ax != () else None, f, tag=fn)
    return r


def shape_axes(I, s, st):
    if s is None:
        return None

    def lab(x):
        if x.const is not NC and isinstance(x.const, int):
            # a length known to be the spatial dimension keeps no frame label
            return x.const
        vn = x.f.get("vn")
        if vn and vn[0] == "len" and isinstance(vn[1], tuple):
            return vn[1]
        return ("n", vn) if vn is not None else "?"

    if s.elts is not None and not s.mem:
        return tuple(lab(x) for x in s.elts)
    if s.mem:
        if len(s.mem) == 1:
            o = st.heap.get(next(iter(s.mem)))
            if o is not None and o.kind == "list" and o.elts is not None and not o.summary:
                return tuple(lab(x) for x in o.elts)
        return None
    if s.prim and s.prim <= {"int", "num"}:
        return (lab(s),)
    return None


@np_("zeros_like", "ones_like", "empty_like", "full_like")
def np_like(I, args, kw, st, node, deps):
    fn = node.func.attr if isinstance(node.func, ast.Attribute) else "zeros_like"
    A = bindargs(args, kw, ["a", "fill", "dtype"] if fn == "full_like" else ["a", "dtype"])
    a = I.norm(args[0], st)
    f = {"vn": I.fresh_vn()}
    if fn in ("zeros_like", "empty_like"):
        f["deg"] = "poly"
        f["rnd"] = "poly"
    elif fn == "ones_like":
        f["deg"] = 0
    elif "fill" in A:
        f.update(cfacts(I.content(A["fill"], st)))
    dt = dtype_of(I, A["dtype"]) if "dtype" in A else None
    f["dt"] = dt if dt is not None else a.f.get("dt")
    d = EMPTY
    return mk(I, st, node, a.deps, axes(I, a, st), f, tag=fn) if is_seq(I, a, st) else I.buf(st, node, a.deps, {k: x for k, x in f.items() if x is not None}, fn).clone(prim=frozenset(["num"]))


@np_("arange")
def np_arange(I, args, kw, st, node, deps):
    A = dict(kw)
    pos = [a for a in args]
    hi = A.get("stop") or (pos[0] if len(pos) == 1 else (pos[1] if len(pos) > 1 else None))
    d = None
    for a in pos[:2]:
        x = I.content(a, st).f.get("deg")
        d = x if d is None else join_deg(d, x) if x is not None else None
    dt = dtype_of(I, A["dtype"]) if "dtype" in A else None
    ax = ("?",)
    if len(pos) == 1:
        ax = shape_axes(I, pos[0], st) or ("?",)
    f = {"deg": d, "vn": I.intern("arange", *[I.vn_of(p) for p in pos]), "dt": dt or "int64", "rng": ("range", I.vn_of(hi) if hi is not None else None), "iota": True if len(pos) == 1 else None, "mono": EMPTY}
    h = I.hooks.get("arange")
    if h:
        h(I, pos, dt, node, st)
    return mk(I, st, node, deps, ax, f, tag="arange")


@np_("linspace", "logspace", "geomspace")
def np_linspace(I, args, kw, st, node, deps):
    d = None
    if len(args) >= 2:
        d = deg_unify(I, I.content(args[0], st).f.get("deg"), I.content(args[1], st).f.get("deg"), node, "linspace")
    ax = axes(I, args[0], st)
    return mk(I, st, node, deps, ("?",) + tuple(ax) if ax is not None else None, {"deg": d, "dt": "float64"}, tag="lin")


@np_("indices")
def np_indices(I, args, kw, st, node, deps):
    A = bindargs(args, kw, ["dimensions", "dtype"])
    dt = dtype_of(I, A.get("dtype")) if "dtype" in A else "int64"
    n = length(I, A["dimensions"], st, node)
    f = {"deg": 0, "dt": dt, "vn": I.fresh_vn()}
    h = I.hooks.get("indices")
    if h:
        h(I, A["dimensions"], dt, node, st)
    lab = n.const if n.const is not NC else "?"
    ax = (lab,) + ("?",) * lab if isinstance(lab, int) else None
    return mk(I, st, node, deps, ax, f, tag="indices")


@np_("meshgrid")
def np_meshgrid(I, args, kw, st, node, deps):
    c = None
    for a in args:
        c = jopt(c, I.content(a, st))
    e = mk(I, st, node, deps, None, cfacts(c) if c else {}, tag="mg")
    return I.mklist(st, node, None, e, deps=deps, tag="mgl")


@np_("append", "concatenate", "vstack", "hstack", "stack", "column_stack", "row_stack", "block", "dstack")
def np_concat(I, args, kw, st, node, deps):
    fn = node.func.attr if isinstance(node.func, ast.Attribute) else "append"
    if fn == "append" and len(args) >= 2:
        parts = list(args[:2])
        axis = kw.get("axis", args[2] if len(args) > 2 else None)
    else:
        ex, el = I.iterate(args[0], st, node)
        parts = ex if ex is not None else [el if el is not None else unknown(deps)]
        axis = kw.get("axis", args[1] if len(args) > 1 else (const(0) if fn in ("concatenate", "vstack", "stack", "row_stack") else None))
        if fn in ("hstack", "column_stack"):
            axis = const(1)
    cs = [I.content(p, st) for p in parts]
    d = cs[0].f.get("deg") if cs else None
    for c in cs[1:]:
        d = deg_unify(I, d, c.f.get("deg"), node, "concatenation")
    f = {"deg": d}
    r = cs[0].f.get("rnd") if cs else None
    for c in cs[1:]:
        x = c.f.get("rnd")
        r = join_rnd(r, x) if r is not None and x is not None else None
    f["rnd"] = r
    role = cs[0].f.get("role") if cs else None
    for c in cs[1:]:
        if c.f.get("role") is not None and c.f.get("role") != role:
            role = c.f.get("role") if role is None else role
    f["role"] = role
    for c in cs:
        deps = deps | c.deps
    axs = [axes(I, p, st) for p in parts]
    f["vn"] = I.intern(fn, *[I.vn_of(p) for p in parts], I.vn_of(axis) if axis is not None else "none")
    ax = None
    if fn == "stack" or axis is None or axis.isnone or axis.const is NC or any(a is None for a in axs):
        if fn == "append" and (axis is None or axis.isnone):
            ax = (("cat",) + tuple(("flat",) + tuple(a) if a is not None and len(a) != 1 else (a[0] if a else "?") for a in axs),) if all(a is not None for a in axs) else ("?",)
    else:
        i = axis.const
        ranks = {len(a) for a in axs}
        if len(ranks) == 1 and isinstance(i, int):
            n = ranks.pop()
            if -n <= i < n:
                i %= n
                ax = []
                for j in range(n):
                    labs = [a[j] for a in axs]
                    if j == i:
                        ax.append(_catlab(I, labs))
                    else:
                        u = labs[0]
                        for l in labs[1:]:
                            u = lab_unify(I, u, l, node, "concatenation")
                        ax.append(u)
                ax = tuple(ax)
    dts = {p.f.get("dt") for p in parts}
    f["dt"] = dts.pop() if len(dts) == 1 else None
    if f["dt"] is None and len(parts) == 2:
        f["dt"] = promote(I, parts[0], parts[1], None, st)
    for h in I.domains:
        h.concat(I, parts, cs, axis, f, node, st)
    if fn == "column_stack":
        ax = None
    return mk(I, st, node, deps, ax, f, tag=fn)


def _catlab(I, labs):
    if len(labs) == 1:
        return labs[0] if not isinstance(labs[0], int) else "?"
    if all(isinstance(x, int) for x in labs):
        return sum(labs)
    return ("cat",) + tuple(labs)


@np_("delete")
def np_delete(I, args, kw, st, node, deps):
    A = bindargs(args, kw, ["arr", "obj", "axis"])
    a = I.norm(A["arr"], st)
    c = I.content(a, st)
    ax = axes(I, a, st)
    f = cfacts(c)
    f["dt"] = a.f.get("dt")
    f["vn"] = I.intern("delete", I.vn_of(a), I.vn_of(A["obj"]))
    axis = A.get("axis")
    nax = None
    if ax is not None and axis is not None and axis.const is not NC and isinstance(axis.const, int):
        i = axis.const % len(ax) if len(ax) else 0
        nax = ax[:i] + (("del", ax[i], I.vn_of(A["obj"])),) + ax[i + 1:]
    elif axis is None:
        nax = ("?",)
    f = {k: x for k, x in f.items() if x is not None}
    return mk(I, st, node, deps, nax, f, tag="delete")


@np_("pad")
def np_pad(I, args, kw, st, node, deps):
    A = bindargs(args, kw, ["array", "pad_width", "mode"])
    a = I.norm(A["array"], st)
    c = I.content(a, st)
    cv = A.get("constant_values", const(0))
    cc = I.content(cv, st)
    d = deg_unify(I, c.f.get("deg"), cc.f.get("deg"), node, "padding")
    f = {"deg": d, "dt": a.f.get("dt"), "rnd": join_rnd(c.f.get("rnd"), cc.f.get("rnd")) if c.f.get("rnd") and cc.f.get("rnd") else None, "role": c.f.get("role"), "vn": I.intern("pad", I.vn_of(a), I.vn_of(A["pad_width"]), I.vn_of(cv))}
    ax = axes(I, a, st)
    nax = None
    if ax is not None and len(ax) == 2:
        w = A["pad_width"]
        if w.elts is not None and len(w.elts) == 2 and w.elts[0].elts is not None and all(e.const == 0 for e in w.elts[0].elts):
            nax = (ax[0], ("pad", ax[1], I.vn_of(w)))
    h = I.hooks.get("pad")
    if h:
        h(I, a, cv, node, st)
    return mk(I, st, node, deps | c.deps | cc.deps, nax, f, tag="pad")


@np_("reshape", "ravel")
def np_reshape(I, args, kw, st, node, deps):
    name = node.func.attr if isinstance(node.func, ast.Attribute) else "reshape"
    A = bindargs(args, kw, ["a", "newshape", "order"] if name == "reshape" else ["a", "order"])
    if "shape" in A:
        A["newshape"] = A["shape"]
    a = I.norm(A["a"], st)
    arrs = frozenset(m for m in a.mem if m in st.heap and st.heap[m].kind == "buf")
    c = I.content(a, st)
    f = cfacts(c)
    f["dt"] = a.f.get("dt") or f.get("dt")
    f["vn"] = I.intern("reshape", I.vn_of(a), I.vn_of(A["newshape"]) if "newshape" in A else "flat")
    ax = axes(I, a, st)
    nax = None
    if name == "ravel":
        nax = (("flat",) + tuple(ax),) if ax is not None else ("?",)
    elif "newshape" in A:
        s = shape_axes(I, A["newshape"], st)
        if s is not None:
            nax = tuple("?" if x == -1 else x for x in s)
            if ax is not None and len(nax) == 2 and nax[1] == "?" and len(ax) == 3 and ax[0] == nax[0]:
                nax = (nax[0], ("flat",) + tuple(ax[1:]))
    rr = _rowroles(I, a, st) if not arrs else a.f.get("rowroles")
    if rr is not None and nax is not None and len(nax) == 2 and nax[0] == len(rr):
        f["rowroles"] = rr
    f = {k: x for k, x in f.items() if x is not None}
    if arrs:
        if nax is not None:
            f["ax"] = nax
        f["view"] = True
        return V(EMPTY, NC, arrs, None, None, a.deps | deps, f, a.ver)
    return mk(I, st, node, deps | c.deps, nax, f, tag=name)


@np_("transpose", "swapaxes", "moveaxis", "rollaxis")
def np_transpose(I, args, kw, st, node, deps):
    a = I.norm(args[0], st)
    ax = axes(I, a, st)
    f = {k: x for k, x in a.f.items() if k in CONTENT or k == "dt"}
    f["vn"] = I.intern("T", I.vn_of(a), *[I.vn_of(x) for x in args[1:]]) if len(args) > 1 else I.intern("T", I.vn_of(a))
    nm = node.func.attr if isinstance(node.func, ast.Attribute) else "transpose"
    if ax is not None:
        if len(args) == 1 and not kw and nm == "transpose":
            f["ax"] = tuple(reversed(ax))
        elif nm == "swapaxes" and len(args) == 3 and all(x.const is not NC for x in args[1:]):
            l = list(ax)
            i, j = args[1].const, args[2].const
            try:
                l[i], l[j] = l[j], l[i]
                f["ax"] = tuple(l)
            except Exception:
                pass
        elif nm == "transpose" and len(args) == 2 and args[1].elts is not None and all(e.const is not NC for e in args[1].elts) and len(args[1].elts) == len(ax):
            f["ax"] = tuple(ax[e.const] for e in args[1].elts)
    if is_arr(I, a, st):
        return a.clone(f=f, deps=deps)
    c = I.content(a, st)
    f.update(cfacts(c))
    nax = f.pop("ax", None)
    return mk(I, st, node, deps, nax, f, tag="tr")


@np_("squeeze", "expand_dims")
def np_squeeze(I, args, kw, st, node, deps):
    a = I.norm(args[0], st)
    f = {k: x for k, x in a.f.items() if k in CONTENT or k == "dt"}
    ax = a.f.get("ax")
    nm = node.func.attr if isinstance(node.func, ast.Attribute) else ""
    if nm == "expand_dims" and ax is not None:
        p = kw.get("axis", args[1] if len(args) > 1 else None)
        if p is not None and isinstance(p.const, int):
            i = p.const if p.const >= 0 else len(ax) + 1 + p.const
            f["ax"] = ax[:i] + (1,) + ax[i:]
    return a.clone(f=f, deps=deps)


@np_("broadcast_to")
def np_broadcast_to(I, args, kw, st, node, deps):
    a = I.norm(args[0], st)
    f = {k: x for k, x in a.f.items() if k in CONTENT or k == "dt"}
    s = shape_axes(I, args[1] if len(args) > 1 else kw.get("shape"), st)
    if s is not None:
        f["ax"] = s
    if is_arr(I, a, st):
        return a.clone(f=f, deps=deps)
    return mk(I, st, node, deps, s, f, tag="bct")


@np_("tile", "repeat")
def np_tile(I, args, kw, st, node, deps):
    a = I.norm(args[0], st)
    c = I.content(a, st)
    f = cfacts(c)
    f["dt"] = a.f.get("dt")
    f["vn"] = I.intern("tile", I.vn_of(a), *[I.vn_of(x) for x in args[1:]])
    ax = axes(I, a, st)
    nax = None
    nm = node.func.attr if isinstance(node.func, ast.Attribute) else "tile"
    if nm == "tile" and ax is not None and len(args) > 1 and args[1].elts is not None and len(args[1].elts) == 2 and len(ax) == 1:
        r, s = args[1].elts
        lab = shape_axes(I, r, st)
        if s.const == 1 and lab:
            nax = (lab[0], ax[0])
    for h in I.domains:
        h.select(I, "tile", [a], f, node, st)
    f = {k: x for k, x in f.items() if x is not None}
    return mk(I, st, node, deps | c.deps, nax, f, tag=nm)


@np_("where")
def np_where(I, args, kw, st, node, deps):
    a = I.norm(args[0], st)
    if len(args) == 1:
        ax = axes(I, a, st)
        n = len(ax) if ax is not None else None
        els = []
        for i in range(n or 1):
            lab = ("nz", I.vn_of(a), i) if I.vn_of(a) is not None else "?"
            els.append(mk(I, st, node, deps, (lab,), {"deg": 0, "dt": "int64", "vn": I.intern("nz", I.vn_of(a), i)}, tag=f"nz{i}"))
        return V(frozenset(["tuple"]), elts=tuple(els), deps=deps)
    x, y = I.norm(args[1], st), I.norm(args[2], st)
    cx, cy = I.content(x, st), I.content(y, st)
    d = deg_unify(I, cx.f.get("deg"), cy.f.get("deg"), node, "where")
    rx, ry = cx.f.get("rnd"), cy.f.get("rnd")
    f = {"deg": d, "rnd": join_rnd(rx, ry) if rx and ry else None, "role": cx.f.get("role") or cy.f.get("role")}
    ax = ax_broadcast(I, axes(I, x, st), axes(I, y, st), node, "where")
    ax = ax_broadcast(I, ax, axes(I, a, st), node, "where") if ax is not None else axes(I, a, st)
    f["dt"] = promote(I, x, y, None, st) if (x.mem or y.mem) else None
    f["vn"] = I.intern("where", I.vn_of(a), I.vn_of(x), I.vn_of(y))
    for h in I.domains:
        h.where(I, a, x, y, cx, cy, f, node, st)
    return mk(I, st, node, deps | cx.deps | cy.deps, ax, f, tag="where")


@np_("nonzero", "flatnonzero", "argwhere")
def np_nonzero(I, args, kw, st, node, deps):
    nm = node.func.attr if isinstance(node.func, ast.Attribute) else "nonzero"
    r = np_where(I, args[:1], {}, st, node, deps)
    if nm == "flatnonzero":
        return r.elts[0]
    if nm == "argwhere":
        return mk(I, st, node, deps, None, {"deg": 0, "dt": "int64"}, tag="argw")
    return r


@np_("unique")
def np_unique(I, args, kw, st, node, deps):
    a = I.norm(args[0], st)
    c = I.content(a, st)
    f = cfacts(c)
    f["dt"] = a.f.get("dt")
    f["vn"] = I.intern("unique", I.vn_of(a), I.vn_of(kw["axis"]) if "axis" in kw else "none")
    ax = axes(I, a, st)
    axis = kw.get("axis")
    lab = ("uniq", f["vn"])
    nax = (lab,)
    if axis is not None and not axis.isnone and axis.const == 0:
        nax = (lab,) + tuple(ax[1:]) if ax is not None else None
    f = {k: x for k, x in f.items() if x is not None}
    h = I.hooks.get("lookup")
    if h:
        h(I, "unique", a, None, node, st)
    r = mk(I, st, node, deps | c.deps, nax, f, tag="uniq")
    extra = [k for k in ("return_index", "return_inverse", "return_counts") if k in kw and kw[k].const is not False]
    if extra:
        outs = [r]
        for k in extra:
            ea = (lab,) if k != "return_inverse" else ("?",)
            outs.append(mk(I, st, node, deps | c.deps, ea, {"deg": 0, "dt": "int64", "vn": I.intern(k, f["vn"])}, tag=k))
        return V(frozenset(["tuple"]), elts=tuple(outs), deps=deps)
    return r


@np_("sort")
def np_sort(I, args, kw, st, node, deps):
    a = I.norm(args[0], st)
    c = I.content(a, st)
    f = cfacts(c)
    f["dt"] = a.f.get("dt")
    f["vn"] = I.intern("sort", I.vn_of(a))
    return mk(I, st, node, deps | c.deps, axes(I, a, st), {k: x for k, x in f.items() if x is not None}, tag="sort")


@np_("argsort", "lexsort", "argpartition")
def np_argsort(I, args, kw, st, node, deps):
    a = I.norm(args[0], st)
    nm = node.func.attr if isinstance(node.func, ast.Attribute) else "argsort"
    ax = axes(I, a, st)
    if nm == "lexsort":
        ax = (ax[-1],) if ax else None
    f = {"deg": 0, "dt": "int64", "perm": True, "vn": I.intern(nm, I.vn_of(a), *[(k, I.vn_of(v)) for k, v in sorted(kw.items())])}
    if nm == "argsort":
        f["sortkey"] = I.content(a, st).f.get("role")
    return mk(I, st, node, deps | I.content(a, st).deps, ax, f, tag=nm)


@np_("isin", "in1d")
def np_isin(I, args, kw, st, node, deps):
    a, b = I.norm(args[0], st), I.norm(args[1], st)
    ca, cb = I.content(a, st), I.content(b, st)
    deg_unify(I, ca.f.get("deg"), cb.f.get("deg"), node, "membership test")
    h = I.hooks.get("lookup")
    if h:
        h(I, "isin", a, b, node, st)
    f = {"dt": "bool", "vn": I.intern("isin", I.vn_of(a), I.vn_of(b))}
    for d in I.domains:
        d.isin(I, a, b, f, node, st)
    return mk(I, st, node, deps | ca.deps | cb.deps, axes(I, a, st), f, tag="isin", boolean=True)


@np_("searchsorted", "digitize")
def np_searchsorted(I, args, kw, st, node, deps):
    a, b = I.norm(args[0], st), I.norm(args[1], st)
    ca, cb = I.content(a, st), I.content(b, st)
    deg_unify(I, ca.f.get("deg"), cb.f.get("deg"), node, "sorted lookup")
    h = I.hooks.get("lookup")
    if h:
        h(I, "searchsorted", b, a, node, st)
    f = {"deg": 0, "dt": "int64", "vn": I.fresh_vn(), "role": "distidx" if cb.f.get("role") == "dist" else None}
    if is_seq(I, b, st):
        return mk(I, st, node, deps | ca.deps | cb.deps, axes(I, b, st), f, tag="ss")
    f.pop("dt")
    return V(frozenset(["num"]), deps=deps | ca.deps | cb.deps, f={k: x for k, x in f.items() if x is not None})


@np_("isclose", "allclose", "array_equal", "array_equiv")
def np_isclose(I, args, kw, st, node, deps):
    nm = node.func.attr if isinstance(node.func, ast.Attribute) else "isclose"
    a, b = I.norm(args[0], st), I.norm(args[1], st)
    deg_unify(I, I.content(a, st).f.get("deg"), I.content(b, st).f.get("deg"), node, nm)
    ax = ax_broadcast(I, axes(I, a, st), axes(I, b, st), node, nm)
    deps = deps | I.content(a, st).deps | I.content(b, st).deps
    if nm != "isclose":
        return scalar("bool", deps)
    f = {"dt": "bool", "vn": I.intern("isclose", I.vn_of(a), I.vn_of(b))}
    return mk(I, st, node, deps, ax, f, tag="isclose", boolean=True)


@np_("round", "around", "round_")
def np_round(I, args, kw, st, node, deps):
    A = bindargs(args, kw, ["a", "decimals", "out"])
    a = I.norm(A["a"], st)
    c = I.content(a, st)
    dec = A.get("decimals", const(0))
    f = cfacts(c)
    f["dt"] = a.f.get("dt")
    if dec.isnone:
        pass
    else:
        f["rnd"] = ("r", I.vn_of(dec) or I.fresh_vn())
        f["vn"] = I.intern("round", I.vn_of(a), I.vn_of(dec))
        if dec.const is not NC and isinstance(dec.const, int) and dec.const <= 0:
            whole(I, "round", c, node)
    for h in I.domains:
        h.ufunc(I, "round", a, c, f, node, st)
    f = {k: x for k, x in f.items() if x is not None}
    if is_seq(I, a, st):
        r = mk(I, st, node, deps | c.deps, axes(I, a, st), f, tag="round")
    else:
        r = V(frozenset(["num"]), deps=deps, f=f)
    o = out_write(I, A, r, st, node)
    return o if o is not None else r


@np_("dot", "inner", "matmul", "outer", "vdot", "tensordot", "kron")
def np_dot(I, args, kw, st, node, deps):
    nm = node.func.attr if isinstance(node.func, ast.Attribute) else "dot"
    if len(args) < 2:
        return generic(I, args, kw, st, node, deps)
    a, b = I.norm(args[0], st), I.norm(args[1], st)
    ca, cb = I.content(a, st), I.content(b, st)
    d = deg_mul(ca.f.get("deg"), cb.f.get("deg"))
    aa, ab = axes(I, a, st), axes(I, b, st)
    ax = None
    if nm in ("dot", "inner", "matmul"):
        ax, dead = contract(I, aa, ab, node, nm, a, b, st)
        if dead:
            return None
    elif nm == "outer" and aa is not None and ab is not None and len(aa) == 1 and len(ab) == 1:
        ax = (aa[0], ab[0])
    elif nm == "vdot":
        ax = ()
    f = {"deg": d, "vn": I.intern(nm, I.vn_of(a), I.vn_of(b))}
    if ax is not None and ax == ():
        return V(frozenset(["num"]), deps=deps | ca.deps | cb.deps, f={k: x for k, x in f.items() if x is not None})
    f["dt"] = "float64" if "float64" in (a.f.get("dt"), b.f.get("dt")) else None
    r = mk(I, st, node, deps | ca.deps | cb.deps, ax, f, tag=nm)
    if kw.get("out") is not None or len(args) > 2:
        o = out_write(I, bindargs(args[2:], kw, ["out"]), r, st, node)
        if o is not None:
            return o
    return r


@np_("einsum")
def np_einsum(I, args, kw, st, node, deps):
    spec = args[0].const if args and args[0].const is not NC else None
    ops = args[1:]
    cs = [I.content(a, st) for a in ops]
    d = 0
    for c in cs:
        d = deg_mul(d, c.f.get("deg"))
        deps = deps | c.deps
    ax = None
    if isinstance(spec, str) and "->" in spec and "." not in spec:
        ins, out = spec.replace(" ", "").split("->")
        ins = ins.split(",")
        labs = {}
        ok = len(ins) == len(ops)
        for s, a in zip(ins, ops):
            aa = axes(I, a, st)
            if aa is None or len(aa) != len(s):
                ok = False
                continue
            for ch, l in zip(s, aa):
                labs[ch] = l if ch not in labs else lab_unify(I, labs[ch], l, node, "einsum")
        if ok:
            ax = tuple(labs.get(ch, "?") for ch in out)
    return mk(I, st, node, deps, ax, {"deg": d}, tag="einsum")


@np_("cross")
def np_cross(I, args, kw, st, node, deps):
    a, b = I.norm(args[0], st), I.norm(args[1], st)
    ca, cb = I.content(a, st), I.content(b, st)
    f = {"deg": deg_mul(ca.f.get("deg"), cb.f.get("deg")), "vn": I.intern("cross", I.vn_of(a), I.vn_of(b))}
    aa = axes(I, a, st)
    ax = None
    if aa is not None and len(aa) >= 1:
        n = I.dim if aa[-1] in WL else aa[-1]
        if n == 2:
            ax = aa[:-1]
        elif n == 3:
            ax = aa
    if ax == ():
        return V(frozenset(["num"]), deps=deps, f={k: x for k, x in f.items() if x is not None})
    return mk(I, st, node, deps, ax, f, tag="cross")


@np_("linalg.norm")
def np_norm(I, args, kw, st, node, deps):
    A = bindargs(args, kw, ["a", "ord", "axis"])
    a = I.norm(args[0], st)
    c = I.content(a, st)
    ax = axes(I, a, st)
    axis = A.get("axis")
    f = {"deg": c.f.get("deg"), "rnd": "raw", "dt": "float64", "role": "dist", "vn": I.intern("norm", I.vn_of(a), I.vn_of(axis) if axis is not None else "none"), "sgn": "+"}
    if axis is None or axis.isnone:
        f.pop("dt")
        return V(frozenset(["num"]), deps=deps | c.deps, f={k: x for k, x in f.items() if x is not None})
    if ax and axis.const is not NC and isinstance(axis.const, int) and -len(ax) <= axis.const < len(ax) and ax[axis.const] == "L" and "W" in ax:
        I.report("frame", node, "norm contracts a lattice-coordinate axis and keeps the world axis of the vectors")
    return mk(I, st, node, deps | c.deps, reduce_axes(I, ax, axis), f, tag="norm")


@np_("linalg.inv", "linalg.pinv")
def np_inv(I, args, kw, st, node, deps):
    a = I.norm(args[0], st)
    c = I.content(a, st)
    d = c.f.get("deg")
    ax = axes(I, a, st)
    f = {"deg": -d if num(d) else None, "dt": "float64", "vn": I.intern("inv", I.vn_of(a))}
    return mk(I, st, node, deps | c.deps, tuple(reversed(ax)) if ax is not None and len(ax) == 2 else None, f, tag="inv")


@np_("linalg.det")
def np_det(I, args, kw, st, node, deps):
    c = I.content(args[0], st)
    d = c.f.get("deg")
    f = {"deg": d * I.dim if num(d) and I.dim else (0 if d == 0 else None), "vn": I.intern("det", I.vn_of(args[0]))}
    return V(frozenset(["num"]), deps=deps | c.deps, f={k: x for k, x in f.items() if x is not None})


@np_("linalg.solve", "linalg.lstsq")
def np_solve(I, args, kw, st, node, deps):
    a, b = I.norm(args[0], st), I.norm(args[1], st)
    ca, cb = I.content(a, st), I.content(b, st)
    aa, ab = axes(I, a, st), axes(I, b, st)
    ax = None
    if aa is not None and ab is not None and len(aa) == 2:
        if ab and ab[0] in WL and aa[0] in WL and ab[0] != aa[0]:
            I.report("frame", node, "solve combines mismatched coordinate axes")
        ax = (aa[1],) + tuple(ab[1:])
    return mk(I, st, node, deps | ca.deps | cb.deps, ax, {"deg": deg_mul(cb.f.get("deg"), ca.f.get("deg"), -1), "dt": "float64"}, tag="solve")


@np_("min_scalar_type")
def np_mst(I, args, kw, st, node, deps):
    a = args[0]
    return V(frozenset(["dtype"]), deps=deps, f={"dtv": ("min", I.vn_of(a) or I.fresh_vn())})


@np_("take", "compress", "choose", "take_along_axis", "extract")
def np_take(I, args, kw, st, node, deps):
    nm = node.func.attr if isinstance(node.func, ast.Attribute) else "take"
    a = I.norm(args[1] if nm == "extract" else args[0], st)
    if nm == "compress" and len(args) >= 2 and not isinstance(node.func, ast.Attribute):
        a = I.norm(args[1], st)
    axis = kw.get("axis", args[2] if len(args) > 2 else None)
    idx = args[1] if len(args) > 1 else kw.get("indices")
    if nm == "take" and axis is not None and axis.const == 0 and idx is not None:
        return array_index(I, a, idx, st, node)
    c = I.content(a, st)
    f = cfacts(c)
    f["dt"] = a.f.get("dt")
    return mk(I, st, node, deps | c.deps, None, {k: x for k, x in f.items() if x is not None}, tag="take")


@np_("clip")
def np_clip(I, args, kw, st, node, deps):
    c = I.content(args[0], st)
    f = cfacts(c)
    r = mk(I, st, node, deps | c.deps, axes(I, args[0], st), f, tag="clip")
    o = out_write(I, bindargs(args[3:], kw, ["out"]), r, st, node)
    return o if o is not None else r


@np_("roll", "flip", "flipud", "fliplr", "rot90", "cumsum", "diff", "nan_to_num", "diagonal", "triu", "tril")
def np_keepcontent(I, args, kw, st, node, deps):
    nm = node.func.attr if isinstance(node.func, ast.Attribute) else ""
    c = I.content(args[0], st)
    f = cfacts(c)
    f["dt"] = args[0].f.get("dt")
    ax = axes(I, args[0], st)
    if nm in ("diff", "diagonal"):
        ax = None
    if nm in ("flip", "flipud", "fliplr", "diagonal") and is_arr(I, args[0], st):
        return args[0].clone(f=dict({k: x for k, x in f.items() if x is not None}, **({"ax": ax} if ax is not None else {})), deps=deps)
    return mk(I, st, node, deps | c.deps, ax, {k: x for k, x in f.items() if x is not None}, tag=nm)


@np_("copyto", "put", "place", "putmask", "fill_diagonal", "put_along_axis")
def np_inplace(I, args, kw, st, node, deps):
    a = args[0]
    nm = node.func.attr if isinstance(node.func, ast.Attribute) else "copyto"
    val = {"copyto": 1, "put": 2, "place": 2, "putmask": 2, "fill_diagonal": 1, "put_along_axis": 2}[nm]
    v = args[val] if len(args) > val else kw.get("values", kw.get("vals", unknown(deps)))
    for m in a.mem:
        if m in st.heap and st.heap[m].kind == "buf":
            I.buf_store(st, m, v, node, whole=nm == "copyto" and "where" not in kw, base=a)
    return const(None)


@np_("random.shuffle")
def np_shuffle(I, args, kw, st, node, deps):
    for m in args[0].mem:
        I.emit("write", m, ".shuffle", node, st, None)
    return const(None)


@np_("ix_")
def np_ix(I, args, kw, st, node, deps):
    return V(frozenset(["tuple"]), elts=tuple(args), deps=deps)


@np_("add.at", "subtract.at", "maximum.at", "minimum.at")
def np_at(I, args, kw, st, node, deps):
    for m in args[0].mem:
        if m in st.heap and st.heap[m].kind == "buf":
            I.buf_store(st, m, args[2] if len(args) > 2 else unknown(deps), node, base=args[0], index=args[1])
    return const(None)


@np_("split", "array_split", "hsplit", "vsplit")
def np_split(I, args, kw, st, node, deps):
    a = I.norm(args[0], st)
    f = {k: x for k, x in a.f.items() if k in CONTENT or k == "dt"}
    return I.mklist(st, node, None, a.clone(f=f), deps=deps, tag="split")
