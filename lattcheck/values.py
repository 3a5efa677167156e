"""Abstract values, heap objects and states."""

NC = type("NC", (), {"__repr__": lambda s: "NC"})()  # no constant known

EMPTY = frozenset()

# facts about the *contents* of an array; weakened by in-place stores
CONTENT = ("deg", "tw", "rnd", "role", "sgn", "mk", "vn", "mono", "aff", "rng")


class V:
    """Abstract value.

    prim  : primitive alternatives ('none','bool','int','float','num','str','any',...)
    const : constant if exactly one value is known
    mem   : ids of the heap objects the value may be
    elts  : element values of an immutable sequence of known length
    fn    : callable reference(s), a tuple of alternatives
    deps  : labels the value may depend on (data and control)
    f     : must-facts of the qualifier domains
    ver   : clock at which the facts were valid
    """

    __slots__ = ("prim", "const", "mem", "elts", "fn", "deps", "f", "ver")

    def __init__(self, prim=EMPTY, const=NC, mem=EMPTY, elts=None, fn=None, deps=EMPTY, f=None, ver=0):
        self.prim = prim
        self.const = const
        self.mem = mem
        self.elts = elts
        self.fn = fn
        self.deps = deps
        self.f = f if f is not None else {}
        self.ver = ver

    def clone(self, **kw):
        v = V(self.prim, self.const, self.mem, self.elts, self.fn, self.deps, self.f, self.ver)
        for k, x in kw.items():
            setattr(v, k, x)
        return v

    def with_f(self, **kw):
        f = dict(self.f)
        for k, x in kw.items():
            if x is None:
                f.pop(k, None)
            else:
                f[k] = x
        return self.clone(f=f)

    def dep(self, deps):
        if not deps or deps <= self.deps:
            return self
        return self.clone(deps=self.deps | deps)

    @property
    def isnone(self):
        return self.prim == {"none"} and not self.mem and not self.fn and self.elts is None

    @property
    def maybe_none(self):
        return "none" in self.prim or "any" in self.prim

    def get(self, key):
        return self.f.get(key)

    def __repr__(self):
        bits = []
        if self.const is not NC:
            bits.append(f"c={self.const!r}")
        elif self.prim:
            bits.append("|".join(sorted(self.prim)))
        if self.mem:
            bits.append("mem=" + ",".join(str(m) for m in sorted(self.mem, key=str)))
        if self.elts is not None:
            bits.append(f"elts={self.elts}")
        if self.fn:
            bits.append("fn=" + ",".join(str(x[:2]) for x in self.fn))
        if self.f:
            bits.append(str({k: v for k, v in self.f.items() if k != "vn"}))
        return "V(" + " ".join(bits) + ")"


def tyof(c):
    if c is None:
        return "none"
    if c is Ellipsis:
        return "ellipsis"
    return {bool: "bool", int: "int", float: "float", str: "str", bytes: "str", complex: "num"}.get(type(c), "any")


_LIT = {}


def const(c, deps=EMPTY):
    f = {}
    if isinstance(c, bool):
        pass
    elif isinstance(c, (int, float)):
        if c == 0 or c != c or c in (float("inf"), float("-inf")):
            f["deg"] = "poly"
            f["rnd"] = "poly"
            if c in (float("inf"), float("-inf")):
                f["tw"] = "poly"
        elif isinstance(c, float) and abs(c) <= 1e-2:
            f["deg"] = "tol"
        else:
            f["deg"] = 0
        if c > 0:
            f["sgn"] = "+"
        elif c < 0:
            f["sgn"] = "-"
        f["mono"] = EMPTY
    try:
        f["vn"] = ("c", type(c).__name__, c)
        hash(f["vn"])
    except TypeError:
        f.pop("vn")
    return V(frozenset([tyof(c)]), c, f=f, deps=deps)


def NONE():
    return const(None)


def unknown(deps=EMPTY):
    return V(frozenset(["any"]), deps=deps)


def scalar(ty="num", deps=EMPTY, **f):
    return V(frozenset([ty]) if isinstance(ty, str) else frozenset(ty), deps=deps, f=f)


# ---- joins -------------------------------------------------------------------
def join_deg(a, b):
    if a == b:
        return a
    for x, y in ((a, b), (b, a)):
        if x == "poly":
            return y
    for x, y in ((a, b), (b, a)):
        if x == "tol":
            return y
    return None


def join_rnd(a, b):
    if a == b:
        return a
    if a == "poly":
        return b
    if b == "poly":
        return a
    if "raw" in (a, b):
        return "raw"
    return None


def join_role(a, b):
    # may-information: union of roles
    return a | b




def join_ax(a, b):
    """Axes of two arrays of the same rank, as far as they agree."""
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and any(x == y and x in ("W", "L", "LI") for x, y in zip(a, b)):
        return tuple(x if x == y else "?" for x, y in zip(a, b))
    return None


JOIN = {"deg": join_deg, "rnd": join_rnd, "ax": join_ax}


def join_f(a, b, union_role=True):
    if a is b or a == b:
        return a
    out = {}
    for k, x in a.items():
        if k in b:
            y = b[k]
            if x == y:
                out[k] = x
            elif k in JOIN:
                z = JOIN[k](x, y)
                if z is not None:
                    out[k] = z
    return out


def join(a, b, pc=EMPTY):
    if a is b:
        return a
    same_const = a.const is not NC and b.const is not NC and type(a.const) is type(b.const) and (
        a.const == b.const or (a.const != a.const and b.const != b.const)
    )
    elts = None
    prim, mem = a.prim | b.prim, a.mem | b.mem
    if a.elts is not None and b.elts is not None and len(a.elts) == len(b.elts):
        elts = tuple(join(x, y, pc) for x, y in zip(a.elts, b.elts))
    elif a.elts is not None or b.elts is not None:
        # tuple joined with something else: keep elements reachable
        known = a.elts if a.elts is not None else b.elts
        other = b if a.elts is not None else a
        if other.isnone:
            elts = known
        else:
            prim = prim | {"any"}
            for e in (a.elts or ()) + (b.elts or ()):
                mem = mem | e.mem
    fn = None
    if a.fn or b.fn:
        fn = tuple(dict.fromkeys((a.fn or ()) + (b.fn or ())))
    # None joined with a value keeps the value's facts (a guarded optional)
    if a.isnone and not b.isnone:
        f = {k: v for k, v in b.f.items() if k != "vn"}
    elif b.isnone and not a.isnone:
        f = {k: v for k, v in a.f.items() if k != "vn"}
    else:
        f = join_f(a.f, b.f)
    deps = a.deps | b.deps
    if pc and not (same_const and a.mem == b.mem) and not (
        a.mem == b.mem and a.f.get("vn") is not None and a.f.get("vn") == b.f.get("vn")
    ):
        deps = deps | pc
    return V(prim, a.const if same_const else NC, mem, elts, fn, deps, f, min(a.ver, b.ver))


class Obj:
    """Heap object.

    kind  : 'inst' | 'list' | 'dict' | 'set' | 'buf' | 'ext'
    """

    __slots__ = ("kind", "cls", "fields", "elts", "elem", "key", "open", "origin", "summary", "ver", "st", "std", "maybe_list", "site", "whole", "init")

    def __init__(self, kind, cls=None, origin=None, site=None):
        self.kind = kind
        self.cls = cls
        self.fields = {}
        self.elts = None
        self.elem = None
        self.key = None
        self.open = False
        self.origin = origin
        self.summary = False
        self.ver = 0
        self.st = None
        self.std = EMPTY
        self.maybe_list = False
        self.site = site
        self.init = None  # content facts at allocation (arrays)
        self.whole = 0  # clock of the last store that replaced all elements

    def clone(self):
        o = Obj(self.kind, self.cls, self.origin, self.site)
        o.fields = dict(self.fields)
        o.elts = self.elts
        o.elem = self.elem
        o.key = self.key
        o.open = self.open
        o.summary = self.summary
        o.ver = self.ver
        o.st = self.st
        o.std = self.std
        o.maybe_list = self.maybe_list
        o.whole = self.whole
        o.init = self.init
        return o

    def __repr__(self):
        return f"Obj({self.kind} {self.cls.name if hasattr(self.cls, 'name') else self.cls} {self.origin or ''} {list(self.fields)})"


def jopt(a, b, pc=EMPTY):
    if a is None:
        return b
    if b is None:
        return a
    return join(a, b, pc)


def join_obj(a, b, pc=EMPTY):
    if a is b:
        return a
    o = a.clone()
    o.summary = a.summary or b.summary
    o.ver = max(a.ver, b.ver)
    o.std = a.std | b.std
    o.open = a.open or b.open
    o.maybe_list = a.maybe_list or b.maybe_list
    o.whole = min(a.whole, b.whole)
    if a.init is not b.init:
        o.init = join_f(a.init, b.init) if a.init is not None and b.init is not None else None
    if a.st is None:
        o.st = b.st
    elif b.st is None:
        o.st = a.st
    else:
        o.st = join_f(a.st, b.st)
    if a.kind in ("list", "set", "dict"):
        if a.elts is not None and b.elts is not None and len(a.elts) == len(b.elts):
            o.elts = tuple(join(x, y, pc) for x, y in zip(a.elts, b.elts))
        else:
            o.elts = None
            e = None
            for s in (a, b):
                if s.elts is not None:
                    for x in s.elts:
                        e = jopt(e, x, pc)
            o.elem = jopt(jopt(a.elem, b.elem, pc), e, pc)
        if o.elts is not None:
            o.elem = jopt(a.elem, b.elem, pc)
        o.key = jopt(a.key, b.key, pc)
    names = set(a.fields) | set(b.fields)
    if names:
        o.fields = {}
        for n in names:
            x, y = a.fields.get(n), b.fields.get(n)
            if x is None or y is None:
                z = x if x is not None else y
                if a.kind == "dict":
                    z = z.clone(f={k: v for k, v in z.f.items()})
                    o.open = True
                o.fields[n] = z.dep(pc)
            else:
                o.fields[n] = join(x, y, pc)
    return o


class State:
    __slots__ = ("env", "heap", "pc", "flags")

    def __init__(self, env=None, heap=None, pc=EMPTY, flags=None):
        self.env = env if env is not None else {}
        self.heap = heap if heap is not None else {}
        self.pc = pc
        self.flags = flags if flags is not None else {}

    def copy(self):
        return State(dict(self.env), dict(self.heap), self.pc, dict(self.flags))

    def become(self, other):
        self.env, self.heap, self.pc, self.flags = other.env, other.heap, other.pc, other.flags


MISSING = object()


def join_states(a, b, pc=EMPTY, flag_join=None):
    """Joins b into a new state; either may be None (unreachable)."""
    if a is None:
        return b
    if b is None:
        return a
    env = {}
    for n in set(a.env) | set(b.env):
        x, y = a.env.get(n), b.env.get(n)
        if x is None:
            env[n] = y
        elif y is None:
            env[n] = x
        else:
            env[n] = join(x, y, pc)
    heap = {}
    for i in set(a.heap) | set(b.heap):
        x, y = a.heap.get(i), b.heap.get(i)
        if x is None:
            heap[i] = y
        elif y is None or x is y:
            heap[i] = x
        else:
            heap[i] = join_obj(x, y, pc)
    flags = {}
    for k in set(a.flags) | set(b.flags):
        x, y = a.flags.get(k, MISSING), b.flags.get(k, MISSING)
        if k.startswith("may"):
            # may-flags: union of sets / or of booleans
            if x is MISSING:
                flags[k] = y
            elif y is MISSING:
                flags[k] = x
            else:
                flags[k] = x | y if isinstance(x, frozenset) else (x or y)
        else:  # must-flags: intersection / and
            if x is MISSING or y is MISSING:
                continue
            flags[k] = x & y if isinstance(x, frozenset) else (x and y)
    return State(env, heap, a.pc & b.pc, flags)
