"""C23: results depend on the arguments and the object alone; nothing is shared between objects or calls."""
import ast

from ..core import Entry, entries, parallel, variants
from ..loader import FunctionInfo
from ..scenario import World
from ..values import EMPTY, NC, V, unknown
from .caches import _deepdeps
from .depend import STG, drawing, fields

# process-wide switches of other libraries
SETTINGS = {
    "numpy.set_printoptions", "numpy.seterr", "numpy.seterrcall", "numpy.random.seed", "numpy.random.set_state", "random.seed", "random.setstate", "os.chdir", "os.putenv", "os.environ.update", "os.umask",
    "warnings.simplefilter", "warnings.filterwarnings", "warnings.resetwarnings", "sys.setrecursionlimit", "logging.disable", "logging.basicConfig", "locale.setlocale", "gc.disable", "decimal.setcontext",
}
# what differs between two runs of the same program
VOLATILE = ("random.", "numpy.random.", "time.", "datetime.datetime.now", "datetime.datetime.today", "datetime.date.today", "uuid.", "secrets.", "os.urandom", "os.getpid", "os.environ", "os.getenv", "os.cpu_count", "os.listdir",
            "os.getcwd", "tempfile.", "threading.get_ident", "threading.current_thread", "platform.", "socket.", "getpass.", "multiprocessing.cpu_count", "locale.", "sys.getrefcount")
STEADY = ("time.sleep", "random.seed")
# the running number of an atom shows in these
COUNTED = {"index", "dict", "__repr__", "dumps", "dump", "__hash__", "__eq__", "__dict__", "__str__"}
COUNTER = "G:Atom._counter"


def partial_store(fn, node):
    """A subscript store that certainly leaves elements of the array unset for some input (None: not certain)."""
    t = next((x for x in (getattr(node, "targets", None) or [getattr(node, "target", node)]) if isinstance(x, ast.Subscript)), None)
    if t is None or not isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
        return None
    keys = t.slice.elts if isinstance(t.slice, ast.Tuple) else [t.slice]
    for k in keys:
        if isinstance(k, ast.Slice) and k.step is None and (k.upper is not None or k.lower is not None) and not (isinstance(k.lower, ast.Constant) and k.lower.value == 0 and k.upper is None):
            return "slice"
    a = fn.args
    params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    up = {c: n for n in ast.walk(fn) for c in ast.iter_child_nodes(n)}
    base = t.value.id if isinstance(t.value, ast.Name) else None
    names = {k.id for k in keys if isinstance(k, ast.Name)}
    n = node
    while n in up and up[n] is not fn:
        q, n = n, up[n]
        if isinstance(n, (ast.For, ast.While)) and any(isinstance(x, ast.Assign) and any(isinstance(y, ast.Name) and y.id == base for y in x.targets) for x in n.body):
            return None  # allocated in this very pass
        if isinstance(n, ast.For) and isinstance(n.target, ast.Name) and n.target.id in names:
            it = n.iter
            while isinstance(it, ast.Call) and isinstance(it.func, (ast.Attribute, ast.Name)) and (it.func.attr if isinstance(it.func, ast.Attribute) else it.func.id) in ("atleast_1d", "asarray", "array", "list", "tuple", "sorted", "set", "unique", "copy") and it.args:
                it = it.args[0]
            if isinstance(it, ast.Name) and it.id in params:
                return "items"
        if isinstance(n, ast.If) and base is not None and any(isinstance(x, ast.For) for x in _above(n, up)):
            other = n.orelse if q in n.body else n.body
            if not other and not any(isinstance(x, ast.If) and x is not n and _stores(x, base) for f in _above(n, up) if isinstance(f, ast.For) for x in f.body):
                return "branch"
    return None


def _above(n, up):
    while n in up:
        n = up[n]
        yield n


def _stores(n, base):
    return any(isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == base for x in ast.walk(n))


def memo_key_complete(p, fi, node):
    """A table filled under a key made of every parameter of the function that computes the value."""
    fn = fi.node
    if not isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)) or fi.cls is not None and fi.kind != "staticmethod":
        return False
    a = fn.args
    params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | ({a.vararg.arg} if a.vararg else set()) | ({a.kwarg.arg} if a.kwarg else set())
    loc = {}
    for n in ast.walk(fn):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            loc.setdefault(n.targets[0].id, []).append(n.value)

    def names(e, depth=0):
        # only what keeps the whole value: not its shape or length
        if isinstance(e, ast.Name):
            out = {e.id}
            if e.id in loc and e.id not in params and depth < 4:
                for x in loc[e.id]:
                    out |= names(x, depth + 1)
            return out
        if isinstance(e, (ast.Tuple, ast.List)):
            return set().union(*(names(x, depth) for x in e.elts))
        if isinstance(e, ast.Starred):
            return names(e.value, depth)
        if isinstance(e, ast.Call):
            f = e.func.attr if isinstance(e.func, ast.Attribute) else e.func.id if isinstance(e.func, ast.Name) else ""
            if f in ("tobytes", "tolist", "tostring") and isinstance(e.func, ast.Attribute):
                return names(e.func.value, depth)
            if f in ("tuple", "str", "repr", "bytes", "asarray", "array", "map", "float", "list", "atleast_1d", "atleast_2d", "ascontiguousarray"):
                return set().union(*(names(x, depth) for x in e.args)) if e.args else set()
        if isinstance(e, (ast.GeneratorExp, ast.ListComp)) and len(e.generators) == 1:
            return names(e.generators[0].iter, depth)
        return set()
    if isinstance(node, ast.Subscript):
        return bool(params) and params <= names(node.slice)
    if isinstance(node, ast.Call) and node.args:
        return bool(params) and params <= names(node.args[0])
    return False


class Watch:
    """Stores to shared state and volatile sources during abstract calls."""

    def __init__(self, w, R):
        self.w, self.R, self.name = w, R, ""
        self.empties, self.sites = {}, {}
        I = w.I
        I.listeners.append(self.listen)
        I.hooks["ext"] = self.ext
        I.hooks["builtin"] = self.builtin
        I.hooks["setiter"] = self.setiter

    def listen(self, I, ev, st):
        if ev.kind == "gwrite":
            what = f"{ev.obj[1]}.{ev.obj[2]}"
            self.R.count("shared_stores")
            self.R.add("C23.shared-state", f"{ev.func.qualname}:{what}", ev.where, f"{self.name} stores to '{what}', which all objects share: later calls on other objects see it", ev.chain())
        elif ev.kind in ("write", "del", "advance"):
            o = st.heap.get(ev.obj)
            if isinstance(ev.obj, tuple) and ev.obj[0] == "default":
                self.R.count("shared_stores")
                self.R.add("C23.shared-state", f"{ev.func.qualname}:default:{ev.obj[2]}", ev.where, f"{self.name} changes the default value of parameter '{ev.obj[2]}' of {ev.obj[1]}, which all later calls get", ev.chain())
            if o is not None and str(o.origin or "").startswith("global:"):
                what = o.origin[7:]
                if what == "Atom._counter":
                    return
                self.R.count("shared_stores")
                if memo_key_complete(self.w.p, ev.func, ev.node):
                    return
                self.R.add("C23.shared-state", f"{ev.func.qualname}:{what}", ev.where, f"{self.name} changes '{what}', which all objects share: later calls on other objects see it", ev.chain())
            if ev.obj in self.empties:
                part = None
                if isinstance(ev.info, tuple) and ev.info[1] is not None:
                    k = ev.info[1]
                    if any(I.content(x, st).f.get("dt") == "bool" or x.prim == {"bool"} for x in (k.elts if k.elts else (k,)) if x.fn is None):
                        part = "mask"
                    else:
                        part = partial_store(ev.func.node, ev.node)
                if part is None or part == "slice" and self.empties[ev.obj] not in (False, ev.node):
                    self.empties[ev.obj] = True
                elif part == "slice" and self.empties[ev.obj] is not True:
                    self.empties[ev.obj] = ev.node

    def ext(self, I, name, args, kw, st, node):
        if name in SETTINGS:
            fi = I.stack[-1][0]
            if not drawing(fi):
                self.R.add("C23.shared-state", f"{fi.qualname}:{name}", f"{fi.module.path}:{getattr(node, 'lineno', 0)} in {fi.qualname}", f"{self.name} calls {name}(), which changes a setting of the whole process")
        if name.startswith(VOLATILE) and name not in STEADY and name not in SETTINGS:
            if name.startswith("numpy.random.") and name.rsplit(".", 1)[1] in ("default_rng", "RandomState", "Generator", "SeedSequence", "PCG64") and (args or kw):
                return None
            return unknown(I.deps_of(args, kw) | {f"NONDET:{name}()"})
        if name in ("numpy.empty", "numpy.empty_like"):
            h = I.hooks.pop("ext")
            try:
                from ..models import ext_function
                v = ext_function(I, name, args, kw, st, node)
            finally:
                I.hooks["ext"] = h
            if v is not None and self.listen in I.listeners and not (v.f.get("ax") and v.f["ax"][0] == 0):
                for m in v.mem:
                    self.empties.setdefault(m, False)
                    self.sites[f"EMPTY:{m}"] = I.stack[-1][0].qualname
                    v = v.dep(frozenset([f"EMPTY:{m}"]))
            return v
        return None

    def builtin(self, I, name, args, kw, st, node):
        if name == "id":
            return V(frozenset(["int"]), deps=frozenset(["NONDET:id()"]))
        if name == "hash" and args and (args[0].prim & {"str", "any"} or isinstance(args[0].const, str)) and not args[0].mem:
            return V(frozenset(["int"]), deps=args[0].deps | {"NONDET:hash() of a string"})
        if name in ("sorted", "len", "sum", "min", "max", "any", "all", "set", "frozenset") and args:
            # the order of a set does not matter here
            h = I.hooks.pop("setiter"), I.hooks.pop("builtin")
            try:
                from ..models import builtin
                v = builtin(I, name, args, kw, st, node)
            finally:
                I.hooks["setiter"], I.hooks["builtin"] = h
            return self.strip(v, st)
        if name == "next" and args:
            for m in args[0].mem:
                o = st.heap.get(m)
                if o is not None and o.origin == "global:Atom._counter":
                    return V(frozenset(["int"]), deps=frozenset([COUNTER]))
        return None

    def strip(self, v, st):
        def f(x):
            return x.clone(deps=frozenset(d for d in x.deps if not d.startswith("NONDET:order"))) if x is not None and any(d.startswith("NONDET:order") for d in x.deps) else x
        if v is None:
            return v
        v = f(v)
        if v.elts is not None:
            v = v.clone(elts=tuple(f(x) for x in v.elts))
        for m in v.mem:
            o = st.heap[m]
            if o.kind in ("list", "set"):
                o = o.clone()
                o.elem = f(o.elem)
                o.elts = tuple(f(x) for x in o.elts) if o.elts is not None else None
                st.heap[m] = o
        return v

    def setiter(self, I, v, o, st):
        e = o.elem
        xs = list(o.elts or ()) + ([e] if e is not None else [])
        if any("str" in x.prim or isinstance(x.const, str) or any(st.heap[m].kind == "inst" for m in x.mem if m in st.heap) for x in xs):
            return v.dep(frozenset(["NONDET:order of a set"]))
        return v


def shared_part(p, R, dim, stage, k, n):
    w = World(p, dim)
    wt = Watch(w, R)
    i = 0
    for e in entries(w, stages=dict.fromkeys(STG, [stage]) | ({} if stage in ("built", "periodic") else {})):
        if stage == "periodic" and (e.cls is None or e.cls.name not in ("Lattice", "LatticeData")):
            continue
        i += 1
        if i % n != k:
            continue
        st = stage if e.cls is not None and e.cls.name in ("Lattice", "LatticeData") else STG.get(e.cls.name, ["new"])[0] if e.cls is not None else "new"
        e = Entry(w, e.cls, e.fi, st)
        wt.name = e.name
        for choose in [None, *variants(e)]:
            e.prepare(choose)
            e.run()
            R.count("entry_points")
    R.absorb(w)


def volatile_part(p, R, dim, stage, k, n):
    w = World(p, dim)
    w.I.fulldeps = True
    w.exact = True
    from ..core import Result
    wt = Watch(w, Result())
    i = 0
    for e in entries(w, stages=STG):
        if drawing(e.fi) or e.cls is not None and e.cls.name in ("Lattice", "LatticeData") and e.stage != stage or stage == "periodic" and (e.cls is None or e.cls.name not in ("Lattice", "LatticeData")):
            continue
        i += 1
        if i % n != k:
            continue
        wt.name = e.name
        e.prepare()
        e.run()
        R.count("calls_checked")
        seen = {}
        if e.out.ok:
            seen["result"] = _deepdeps(w.I, e.out.value, e.out.st)
            if e.recv is not None and e.fi.name != "__init__":
                seen.update({f"attribute '{a}'": d for a, d in fields(w, e).items()})
        for r in e.out.raises:
            seen["raised exception"] = seen.get("raised exception", frozenset()) | r["st"].pc
        loc = f"{e.fi.module.path}:{e.fi.node.lineno} in {e.fi.qualname}"
        atom = e.cls is not None and e.cls.name == "Atom"
        for what, d in seen.items():
            R.count("outputs_checked")
            for x in sorted(d):
                if x.startswith("NONDET:"):
                    if atom and e.fi.name in ("__hash__", "id"):
                        continue
                    R.add("C23.volatile", f"{e.fi.qualname}:{x[7:]}", loc, f"the {what} of {e.name}() depends on {x[7:]}, which differs from run to run")
                elif x.startswith("EMPTY:"):
                    if not any(f"EMPTY:{m}" == x and ok is True for m, ok in wt.empties.items()):
                        R.add("C23.uninitialised", wt.sites.get(x, e.fi.qualname), loc, f"the {what} of {e.name}() can contain memory that was allocated and never set")
                elif x == COUNTER and not atom and e.fi.name not in COUNTED and not _holds_atoms(w, e, what):
                    R.add("C23.counter", f"{e.fi.qualname}:{what}", loc, f"the {what} of {e.name}() depends on how many atoms were created before in the process")
    R.absorb(w)


def _holds_atoms(w, e, what):
    """The running number only shows because the result is or contains the atoms themselves."""
    I = w.I
    if what == "raised exception":
        return False
    roots = [e.out.value] if what == "result" else [x for m in e.recv.mem for a, x in e.out.st.heap[m].fields.items() if f"attribute '{a}'" == what or what.startswith("attribute 'data.") and a == "data"]
    st = e.out.st
    for v in roots:
        if COUNTER in v.deps:
            return False
        own = I.reach(v, st, stop_inst=lambda o: o.kind == "inst" and getattr(o.cls, "name", "") == "Atom")
        for m in own:
            o = st.heap[m]
            if COUNTER in o.std or any(COUNTER in x.deps for x in list(o.fields.values()) + list(o.elts or ()) + [o.elem, o.key] if x is not None):
                return False
    return True


def part(p, R, kind, *a):
    {"shared": shared_part, "volatile": volatile_part}[kind](p, R, *a)


def c23(p, tier):
    """No call stores to state shared by all objects, and no result depends on volatile sources or on objects created before."""
    dims = (1, 2, 3, 4) if tier == "thorough" else (1, 2, 3)
    n = 4
    R, _ = parallel(p, part, [(kind, d, s, k, n) for d in dims for kind in ("shared", "volatile") for s in ("built", "periodic") for k in range(n)])
    return R
