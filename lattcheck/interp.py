"""Abstract interpreter over the package's syntax trees.

Flow-sensitive, interprocedural by inlining (bounded depth), with a heap of abstract
objects identified by allocation site and call context.  Unknown constructs evaluate to
an unconstrained value and have no effect, so that everything a rule reports rests on
facts the interpreter established.
"""
import ast
import builtins as _b
from fractions import Fraction

from .loader import ClassInfo, FunctionInfo, ModuleInfo
from .values import (
    CONTENT, EMPTY, NC, V, Obj, State, const, join, join_f, join_obj, join_states, jopt, scalar, unknown,
)

MAXDEPTH = 16
UNROLL = 14


# documented meaning of the last axis of public attributes
SEMANTIC = {("LatticeData", "positions"): "W", ("LatticeData", "indices"): "LI", ("LatticeData", "pnvecs"): "L"}
RECOVER = ("deg", "tw", "rnd", "role", "dt")


def unrollable(ex):
    """Short sequences, and those of names (attributes, keys)."""
    return len(ex) <= UNROLL or len(ex) <= 48 and all(isinstance((x.elts[0] if x.elts else x).const, str) for x in ex)


class Event:
    __slots__ = ("kind", "obj", "field", "node", "stack", "st", "val", "info", "pc")

    def __init__(self, kind, obj, field, node, stack, val=None, info=None):
        self.kind = kind
        self.obj = obj
        self.field = field
        self.node = node
        self.stack = stack
        self.val = val
        self.info = info

    @property
    def where(self):
        fi = self.stack[-1][0] if self.stack else None
        line = getattr(self.node, "lineno", 0)
        if fi is None:
            return f"?:{line}"
        path = fi.module.path
        return f"{path}:{line} in {fi.qualname}"

    @property
    def func(self):
        return self.stack[-1][0] if self.stack else None

    def chain(self):
        return " -> ".join(fi.qualname for fi, _ in self.stack)


class Frame:
    __slots__ = ("fi", "returns", "yields", "loops", "cls", "selfv", "env0", "globals")

    def __init__(self, fi):
        self.globals = ()
        self.fi = fi
        self.returns = []
        self.yields = None
        self.loops = []
        self.cls = fi.cls
        self.selfv = None


class Interp:
    def __init__(self, program, dim=None):
        self.p = program
        self.dim = dim  # fixed spatial dimension of this run, or None
        self.clock = 1
        self.stack = []  # (FunctionInfo, callnode)
        self.frames = []
        self.raise_sinks = []  # list of lists
        self.iter_ctx = []
        self.events = []  # effect log
        self.reports = {}  # (rule, where-key) -> text
        self.listeners = []  # callables(I, event, st)
        self.functions_seen = set()
        self.call_sites = 0
        self.stmts = 0
        self.limits_hit = set()
        self.hooks = {}  # rule-specific hooks: name -> fn
        self.domains = []
        self._modconst = {}
        self._ctx_cache = {}
        self.vn_table = {}
        self.cmp_sites = []
        self.fuel = 0
        self.fulldeps = False  # results of external calls depend on every argument
        self.branchdeps = True  # ... and on the conditions of decided branches
        self._matches = {}
        self.shape_errors = False
        self.learn = True
        self.trace = None  # set of executed statements and branch arms, if wanted

    # ---------------------------------------------------------------- utilities
    def tick(self):
        self.clock += 1
        return self.clock

    def ctx(self):
        return (tuple((fi.qualname, getattr(n, "lineno", 0), getattr(n, "col_offset", 0)) for fi, n in self.stack), tuple(self.iter_ctx))

    def alloc(self, st, kind, node, cls=None, tag="", origin=None):
        key = (kind, getattr(node, "lineno", 0), getattr(node, "col_offset", 0), tag, self.ctx())
        oid = self._ctx_cache.get(key)
        if oid is None:
            oid = len(self._ctx_cache) + 1
            self._ctx_cache[key] = oid
        fi = self.stack[-1][0] if self.stack else None
        o = Obj(kind, cls, origin, site=(fi.qualname if fi else "?", getattr(node, "lineno", 0)))
        o.ver = self.tick()
        old = st.heap.get(oid)
        if old is not None:
            o2 = join_obj(old, o) if kind in ("inst",) else o
            if kind == "inst":
                o2 = o
            o = o2
            o.summary = True
            o.ver = self.tick()
            if kind in ("list", "dict", "set"):
                # previous contents may still be reachable through older references
                o.elem = None
        st.heap[oid] = o
        return oid

    def _peek(self, kind, node, tag):
        return self._ctx_cache.get((kind, getattr(node, "lineno", 0), getattr(node, "col_offset", 0), tag, self.ctx()))

    def recover(self, v, m, st):
        """Content facts of array m lost by joining its reference with others."""
        o = st.heap.get(m)
        if o is None or o.init is None or v.prim or len(v.mem) == 1 and v.f and (len(v.f) > 1 or "fromdict" not in v.f):
            return v.f
        f = None
        for k, x in o.init.items():
            if k in v.f:
                continue
            if o.st is not None and k != "dt":
                x = join_f({k: x}, {k: o.st[k]}).get(k) if k in o.st else None
            if x is not None:
                if f is None:
                    f = dict(v.f)
                f[k] = x
        return f if f is not None else v.f

    def sym(self, st, kind, name, cls=None, maybe_list=False):
        """A symbolic object standing for caller-owned data."""
        oid = ("sym", name)
        if oid not in st.heap:
            o = Obj(kind, cls, origin=name)
            o.maybe_list = maybe_list
            o.open = True
            o.ver = 0
            st.heap[oid] = o
        return oid

    def buf(self, st, node, deps=EMPTY, f=None, tag=""):
        old = st.heap.get(self._peek("buf", node, tag))
        oid = self.alloc(st, "buf", node, tag=tag)
        init = {k: x for k, x in (f or {}).items() if k in RECOVER}
        if old is not None:
            was = old.init
            init = join_f(was, init) if was is not None else {}
            if was is not None and "tw" in was:
                init["tw"] = was["tw"]  # noted after the array has been made
        st.heap[oid].init = init
        return V(EMPTY, NC, frozenset([oid]), None, None, deps | st.pc, dict(f or {}), self.clock)

    def report(self, rule, node, msg):
        fi = self.stack[-1][0] if self.stack else None
        key = (rule, fi.qualname if fi else "?", getattr(node, "lineno", 0), msg)
        if key not in self.reports:
            chain = " -> ".join(f.qualname for f, _ in self.stack)
            where = f"{fi.module.path}:{getattr(node, 'lineno', 0)} in {fi.qualname}" if fi else "?"
            self.reports[key] = dict(rule=rule, where=where, msg=msg, chain=chain, func=fi.qualname if fi else "?")

    def emit(self, kind, obj, field, node, st, val=None, info=None):
        ev = Event(kind, obj, field, node, tuple(self.stack), val, info)
        ev.st = None
        ev.pc = st.pc
        self.events.append(ev)
        for l in self.listeners:
            l(self, ev, st)
        return ev

    def norm(self, v, st):
        """Brings the content facts of a value up to date with in-place stores."""
        if not v.mem:
            return v
        f, deps, changed = v.f, v.deps, False
        ver = v.ver
        for m in v.mem:
            o = st.heap.get(m)
            if o is None or o.kind != "buf":
                continue
            if o.ver > v.ver and o.st is not None:
                if not changed:
                    f = dict(f)
                    changed = True
                for k in CONTENT:
                    if v.ver < o.whole:
                        if k in ("vn", "mk") or o.st.get(k) is None:
                            f.pop(k, None)
                        else:
                            f[k] = o.st[k]
                    elif k in f:
                        if k in ("vn", "mk"):
                            del f[k]
                            continue
                        y = o.st.get(k)
                        if y is None:
                            del f[k]
                        else:
                            z = join_f({k: f[k]}, {k: y}).get(k)
                            if z is None:
                                del f[k]
                            else:
                                f[k] = z
            deps = deps | o.std
            ver = max(ver, o.ver)
        if changed or deps is not v.deps:
            return v.clone(f=f, deps=deps, ver=max(ver, v.ver))
        return v

    def vn_of(self, v, st=None):
        k = v.f.get("vn")
        if k is None and v.const is not NC:
            try:
                k = ("c", type(v.const).__name__, v.const)
                hash(k)
            except TypeError:
                return None
        if k is None and v.elts is not None:
            ks = tuple(self.vn_of(e) for e in v.elts)
            if None not in ks:
                k = ("tup",) + ks
        return k

    def fresh_vn(self, node=None):
        return ("v", self.tick())

    def intern(self, *parts):
        if any(p is None for p in parts):
            return self.fresh_vn()
        key = parts
        r = self.vn_table.get(key)
        if r is None:
            r = ("e", len(self.vn_table) + 1)
            self.vn_table[key] = r
        return r

    # ---------------------------------------------------------------- functions
    def call_function(self, fi, args, kw, st, node, selfv=None, star=None, dstar=None):
        """Inlines a repository function. Returns its value; st is updated in place.

        Sets st.env None-able reachability through return: returns None when no
        normal exit exists."""
        self.call_sites += 1
        depth = sum(1 for f, _ in self.stack if f is fi)
        if len(self.stack) >= MAXDEPTH or depth >= 2:
            self.limits_hit.add(fi.qualname)
            return unknown(self.deps_of(args, kw) | st.pc)
        self.functions_seen.add(fi.qualname)
        env = {}
        ok = self.bind(fi, args, kw, st, env, selfv, star, dstar, node)
        frame = Frame(fi)
        frame.selfv = selfv
        if fi.is_gen:
            frame.yields = []
        caller_env = st.env
        pc0 = st.pc
        st.env = env
        self.stack.append((fi, node))
        self.frames.append(frame)
        it, self.iter_ctx = self.iter_ctx, []
        pushed = self.iter_ctx
        if it:
            self.iter_ctx = list(it)
        try:
            if isinstance(fi.node, ast.Lambda):
                val = self.eval(fi.node.body, st)
                out = st if val is not None else None
                if out is not None:
                    frame.returns.append((val, out))
            else:
                out = self.exec_block(fi.node.body, st)
                if out is not None:
                    frame.returns.append((const(None), out))
        finally:
            self.stack.pop()
            self.frames.pop()
            self.iter_ctx = it
        if not frame.returns:
            st.env = caller_env
            st.pc = pc0
            return None  # never returns normally
        val, res = None, None
        for v, s in frame.returns:
            if val is None:
                val, res = v, s
            else:
                rp = (res.pc | s.pc) - pc0
                val = join(self.norm(val, res), self.norm(v, s), rp)
                res = join_states(res, s, rp)
        st.heap, st.flags = res.heap, res.flags
        st.env = caller_env
        st.pc = pc0
        if fi.is_gen:
            el = None
            for y in frame.yields:
                el = jopt(el, y)
            oid = self.alloc(st, "list", node, tag="gen")
            o = st.heap[oid].clone()
            o.elem = el if el is not None else unknown()
            st.heap[oid] = o
            val = V(mem=frozenset([oid]), deps=el.deps if el is not None else EMPTY)
        val = self.norm(val, st)
        h = self.hooks.get("return")
        if h:
            val = h(self, fi, val, st, node) or val
        return val

    def deps_of(self, args, kw):
        d = EMPTY
        for a in args:
            d = d | a.deps
        for a in kw.values():
            d = d | a.deps
        return d

    def bind(self, fi, args, kw, st, env, selfv, star, dstar, node):
        a = fi.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        if selfv is not None:
            args = [selfv] + args
        kw = dict(kw)
        n = len(pos)
        ann = {x.arg: x.annotation for x in a.posonlyargs + a.args + a.kwonlyargs}
        for i, nm in enumerate(pos):
            if i < len(args):
                env[nm] = args[i]
            elif nm in kw:
                env[nm] = kw.pop(nm)
        extra = args[n:]
        if star is not None and len(args) < n:
            # unknown *args fill the remaining positionals
            for nm in pos[len(args):]:
                if nm not in env:
                    env[nm] = star
        dpos = a.defaults
        for i, d in enumerate(dpos):
            nm = pos[n - len(dpos) + i]
            if nm not in env:
                env[nm] = self.default_value(fi, nm, d, st)
                if dstar is not None:
                    env[nm] = join(env[nm], unknown(dstar.deps))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg in kw:
                env[x.arg] = kw.pop(x.arg)
            elif d is not None:
                env[x.arg] = self.default_value(fi, x.arg, d, st)
        for nm in pos + [x.arg for x in a.kwonlyargs]:
            if nm not in env:
                env[nm] = unknown(st.pc)
        if a.vararg:
            if star is not None:
                mem = star.mem
                for e in extra:
                    mem = mem | e.mem
                oid = self.alloc(st, "list", node, tag="varargs" + fi.qualname)
                o = st.heap[oid].clone()
                el = star
                for e in extra:
                    el = join(el, e)
                o.elem = el
                st.heap[oid] = o
                env[a.vararg.arg] = V(mem=frozenset([oid]), deps=el.deps)
            else:
                env[a.vararg.arg] = V(frozenset(["tuple"]), elts=tuple(extra), deps=self.deps_of(extra, {}))
        if a.kwarg:
            oid = self.alloc(st, "dict", node, tag="kwargs" + fi.qualname)
            o = st.heap[oid].clone()
            for k, v in kw.items():
                o.fields[k] = v
            if dstar is not None:
                o.open = True
                o.elem = dstar
            st.heap[oid] = o
            env[a.kwarg.arg] = V(mem=frozenset([oid]))
        for nm, v in list(env.items()):
            h = self.hooks.get("param")
            if h:
                env[nm] = h(self, fi, nm, v, st) or v
        return True

    def default_value(self, fi, nm, node, st):
        if isinstance(node, (ast.List, ast.Dict, ast.Set)) or (
            isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in ("list", "dict", "set")
        ):
            kind = {"List": "list", "Dict": "dict", "Set": "set"}.get(type(node).__name__) or node.func.id
            oid = ("default", fi.qualname, nm)
            if oid not in st.heap:
                o = Obj(kind, origin=f"default:{fi.qualname}.{nm}")
                o.elts = () if kind == "list" else None
                st.heap[oid] = o
            return V(mem=frozenset([oid]))
        env0 = st.env
        st.env = {}
        self.stack.append((FunctionInfo.__new__(FunctionInfo), node)) if False else None
        try:
            v = self.eval_in_module(node, fi, st)
        finally:
            st.env = env0
        return v if v is not None else unknown()

    def eval_in_module(self, node, fi, st):
        # evaluate an expression in the scope of fi's module / class body
        fr = Frame(fi)
        self.frames.append(fr)
        self.stack.append((fi, node))
        env0 = st.env
        st.env = {}
        try:
            if fi.cls is not None and isinstance(node, ast.Name):
                for c in fi.cls.mro():
                    if node.id in c.attrs:
                        return self.eval(c.attrs[node.id], st)
            return self.eval(node, st)
        finally:
            st.env = env0
            self.frames.pop()
            self.stack.pop()

    # ---------------------------------------------------------------- statements
    def exec_block(self, stmts, st):
        for s in stmts:
            if st is None:
                return None
            st = self.exec(s, st)
        return st

    def exec(self, s, st):
        self.stmts += 1
        if self.trace is not None:
            self.trace.add(id(s))
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            return st
        return m(s, st)

    def x_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return st
        v = self.eval(s.value, st)
        if self.trace is not None and v is not None and isinstance(s.value, ast.BoolOp):
            self.trace.add((id(s), self.truth(v, st), repr(v.const)))
        return st if v is not None else None

    def x_Pass(self, s, st):
        return st

    def x_Global(self, s, st):
        self.frames[-1].globals = (*self.frames[-1].globals, *s.names)
        return st

    def x_Nonlocal(self, s, st):
        return st

    def x_Import(self, s, st):
        fi = self.frames[-1].fi
        for k, r in self.p.import_bindings(s, fi.module).items():
            r = self.p.settle(r)
            st.env[k] = self.from_ref(r, st) if r else unknown()
        return st

    x_ImportFrom = x_Import

    def x_FunctionDef(self, s, st):
        fi = FunctionInfo(s, self.frames[-1].fi.module, None, closure=st.env)
        fi.name = s.name
        st.env[s.name] = V(fn=(("func", fi, None),))
        return st

    def x_ClassDef(self, s, st):
        st.env[s.name] = unknown()
        return st

    def x_Return(self, s, st):
        v = const(None) if s.value is None else self.eval(s.value, st)
        if v is None:
            return None
        self.frames[-1].returns.append((v.dep(st.pc), st))
        return None

    def x_Raise(self, s, st):
        v = self.eval(s.exc, st) if s.exc is not None else unknown()
        if v is not None:
            self.raise_(v, st, s)
        return None

    def raise_(self, v, st, node):
        rec = dict(exc=v, st=st.copy(), node=node, stack=tuple(self.stack), nevents=len(self.events))
        if self.raise_sinks:
            self.raise_sinks[-1].append(rec)

    def x_Assert(self, s, st):
        v = self.eval(s.test, st)
        if v is None:
            return None
        if self.trace is not None:
            self.trace.add((id(s), self.truth(v, st)))
        self.refine(s.test, st, True)
        return st

    def x_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                b = self.eval(t.value, st)
                k = self.eval(t.slice, st)
                if b is None or k is None:
                    return None
                self.store_write(st, b, "[del]", k, t)
                for m in b.mem:
                    o = st.heap.get(m)
                    if o is not None and o.kind in ("dict", "list"):
                        o = o.clone()
                        o.ver = self.tick()
                        if o.kind == "dict" and k.const is not NC and isinstance(k.const, str):
                            o.fields.pop(k.const, None)
                        if o.kind == "list" and o.elts is not None:
                            e = None
                            for x in o.elts:
                                e = jopt(e, x)
                            o.elem, o.elts = jopt(o.elem, e), None
                        st.heap[m] = o
            elif isinstance(t, ast.Attribute):
                b = self.eval(t.value, st)
                if b is None:
                    return None
                for m in b.mem:
                    self.emit("del", m, t.attr, t, st)
                    o = st.heap.get(m)
                    if o is not None and t.attr in o.fields and not o.summary:
                        o = o.clone()
                        del o.fields[t.attr]
                        st.heap[m] = o
        return st

    def x_Assign(self, s, st):
        v = self.eval(s.value, st)
        if v is None:
            return None
        for t in s.targets:
            self.assign(t, v, st, s)
        return st

    def x_AnnAssign(self, s, st):
        if s.value is None:
            return st
        v = self.eval(s.value, st)
        if v is None:
            return None
        self.assign(s.target, v, st, s)
        return st

    def x_AugAssign(self, s, st):
        t = s.target
        load = ast.copy_location(self._as_load(t), t)
        cur = self.eval(load, st)
        if cur is None:
            return None
        rhs = self.eval(s.value, st)
        if rhs is None:
            return None
        cur = self.norm(cur, st)
        muts = [m for m in cur.mem if m in st.heap and st.heap[m].kind in ("buf", "list", "set", "dict")]
        if isinstance(t, ast.Subscript):
            res = self.binop(s.op, cur, rhs, s, st, inplace=True)
            self.assign(t, res, st, s, aug=True)
            return st
        if not muts:
            res = self.binop(s.op, cur, rhs, s, st)
            self.assign(t, res, st, s, aug=True)
            return st
        bufs = [m for m in muts if st.heap[m].kind == "buf"]
        others = [m for m in muts if st.heap[m].kind != "buf"]
        res = None
        if bufs:
            r = self.binop(s.op, cur, rhs, s, st, inplace=True)
            for m in bufs:
                self.buf_store(st, m, r, s, whole=True, aug=True)
            keep = {k: x for k, x in r.f.items()}
            for k in ("dt",):
                if k in cur.f:
                    keep[k] = cur.f[k]
                else:
                    keep.pop(k, None)
            res = V(cur.prim & {"num", "int", "float", "any"}, NC, frozenset(bufs), None, None, r.deps | cur.deps | st.pc, keep, self.tick())
        for m in others:
            self.emit("write", m, "[aug]", s, st, rhs)
            o = st.heap[m].clone()
            o.ver = self.tick()
            if o.kind == "list":
                ex, el = self.iterate(rhs, st, s)
                if o.elts is not None and ex is not None and not o.summary:
                    o.elts = o.elts + tuple(ex)
                else:
                    e = None
                    for x in o.elts or ():
                        e = jopt(e, x)
                    o.elem = jopt(jopt(o.elem, e), el)
                    o.elts = None
            st.heap[m] = o
        if others:
            x = cur.clone(mem=frozenset(others), deps=cur.deps | rhs.deps | st.pc)
            res = x if res is None else join(res, x)
        if isinstance(t, ast.Name):
            st.env[t.id] = res
        else:
            self.assign(t, res, st, s, aug=True)
        return st

    def _as_load(self, t):
        t2 = type(t)(**{f: getattr(t, f) for f in t._fields})
        t2.ctx = ast.Load()
        return t2

    # assignment ----------------------------------------------------------------
    def assign(self, t, v, st, node, aug=False):
        if isinstance(t, ast.Name):
            st.env[t.id] = v.dep(st.pc)
            fr = self.frames[-1]
            if t.id in fr.globals:
                self.emit("gwrite", ("gname", fr.fi.module.name, t.id), t.id, node, st, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, st, node)
        elif isinstance(t, ast.Starred):
            oid = self.alloc(st, "list", t)
            o = st.heap[oid].clone()
            o.elem = v
            st.heap[oid] = o
            self.assign(t.value, V(mem=frozenset([oid]), deps=v.deps), st, node)
        elif isinstance(t, ast.Attribute):
            b = self.eval(t.value, st)
            if b is not None:
                self.setattr_(b, t.attr, v.dep(st.pc), st, t)
        elif isinstance(t, ast.Subscript):
            b = self.eval(t.value, st)
            k = self.eval(t.slice, st)
            if b is not None and k is not None:
                self.not_a_list(t, st)
                self.setitem(b, k, v.dep(st.pc), st, t, aug=aug)

    def unpack(self, targets, v, st, node):
        stars = [i for i, t in enumerate(targets) if isinstance(t, ast.Starred)]
        ex, el = self.iterate(v, st, node)
        n = len(targets)
        if ex is not None and not stars and len(ex) == n:
            for t, x in zip(targets, ex):
                self.assign(t, x, st, node)
            return
        if ex is not None and len(stars) == 1 and len(ex) >= n - 1:
            i = stars[0]
            tail = n - i - 1
            for t, x in zip(targets[:i], ex[:i]):
                self.assign(t, x, st, node)
            oid = self.alloc(st, "list", node, tag="star")
            o = st.heap[oid].clone()
            o.elts = tuple(ex[i:len(ex) - tail])
            st.heap[oid] = o
            self.assign(targets[i].value, V(mem=frozenset([oid]), deps=v.deps), st, node)
            for t, x in zip(targets[n - tail:], ex[len(ex) - tail:] if tail else []):
                self.assign(t, x, st, node)
            return
        for i, t in enumerate(targets):
            x = el if el is not None else unknown(v.deps)
            x = self.unpack_component(v, i, n, x, st)
            self.assign(t, x, st, node)

    def unpack_component(self, v, i, n, x, st):
        # each component of an unpacked array is a distinct row
        f = dict(x.f)
        vn = self.vn_of(v)
        f["vn"] = self.intern("unpack", vn, i) if vn is not None else self.fresh_vn()
        role = v.f.get("rowroles")
        if role and i < len(role):
            f.update(role[i])
        return x.clone(f=f)

    def setattr_(self, b, attr, v, st, node):
        for f in b.fn or ():
            if f[0] in ("class", "mod", "func", "ext"):
                self.emit("gwrite", ("gattr", getattr(f[1], "name", str(f[1])), attr), attr, node, st, v)
        for m in sorted(b.mem, key=str):
            o = st.heap.get(m)
            if o is None:
                continue
            if o.kind == "inst" and isinstance(o.cls, ClassInfo):
                setter = o.cls.lookup_setter(attr)
                if setter is not None:
                    self.call_function(setter, [v], {}, st, node, selfv=V(mem=frozenset([m])))
                    continue
                sa = o.cls.lookup("__setattr__")
                if isinstance(sa, FunctionInfo) and not any(f is sa for f, _ in self.stack):
                    self.call_function(sa, [const(attr), v], {}, st, node, selfv=V(mem=frozenset([m])))
                    continue
            self.set_field(st, m, attr, v, node, strong=len(b.mem) == 1 and not b.prim)

    def set_field(self, st, m, attr, v, node, strong=True):
        o = st.heap.get(m)
        if o is None:
            return
        old = o.fields.get(attr)
        self.emit("write", m, attr, node, st, v, info=old)
        o = st.heap.get(m).clone()
        if o.kind == "buf":
            return
        lab = SEMANTIC.get((getattr(o.cls, "name", None), attr))
        if lab is not None:
            ax = v.f.get("ax")
            if ax and not isinstance(ax[-1], tuple) and ax[-1] not in ("W", "L", "LI") and len(ax) > 1:
                v = v.with_f(ax=tuple(ax[:-1]) + (lab,))
        if strong and not o.summary:
            o.fields[attr] = v
        else:
            o.fields[attr] = jopt(old, v)
        o.ver = self.tick()
        st.heap[m] = o

    def setitem(self, b, k, v, st, node, aug=False):
        b = self.norm(b, st)
        single = len(b.mem) == 1 and not b.prim
        for m in sorted(b.mem, key=str):
            o = st.heap.get(m)
            if o is None:
                continue
            if o.kind == "buf":
                h = self.hooks.get("subscript")
                if h:
                    h(self, b, k, st, node)
                h = self.hooks.get("store")
                if h:
                    h(self, b, m, k, v, st, node)
                self.store_units(b, k, v, st, node)
                self.buf_store(st, m, v, node, whole=self.is_full_index(b, k), base=b, index=k, aug=aug)
            elif o.kind in ("list", "dict"):
                self.emit("write", m, self.key_label(k), node, st, v, info=k)
                o = st.heap[m].clone()
                o.ver = self.tick()
                if o.kind == "dict":
                    if k.const is not NC and isinstance(k.const, (str, int)) and not isinstance(k.const, bool):
                        if single and not o.summary:
                            o.fields[k.const] = v
                        else:
                            o.fields[k.const] = jopt(o.fields.get(k.const), v)
                        if isinstance(o.cls, tuple):
                            self.set_field(st, o.cls[1], k.const, v, node, strong=single)
                    else:
                        o.elem = jopt(o.elem, v)
                        o.key = jopt(o.key, k)
                        o.open = True
                else:
                    if o.elts is not None and k.const is not NC and isinstance(k.const, int) and -len(o.elts) <= k.const < len(o.elts) and single and not o.summary:
                        e = list(o.elts)
                        e[k.const] = v
                        o.elts = tuple(e)
                    elif o.elts is not None:
                        o.elts = tuple(join(x, v) for x in o.elts)
                    else:
                        o.elem = jopt(o.elem, v)
                st.heap[m] = o
            elif o.kind == "inst" and isinstance(o.cls, ClassInfo):
                f = o.cls.lookup("__setitem__")
                if isinstance(f, FunctionInfo):
                    self.call_function(f, [k, v], {}, st, node, selfv=V(mem=frozenset([m])))

    def store_units(self, b, k, v, st, node):
        """Elements stored into an array have the meaning of its other elements."""
        dt, dv = self.content(b, st).f.get("deg"), self.content(v, st).f.get("deg")
        if isinstance(dt, (int, Fraction)) and isinstance(dv, (int, Fraction)) and dt != dv and dt != 0:
            self.report("deg", node, f"store puts a quantity of length dimension {dv} into an array of dimension {dt}")
        fr, ax = v.f.get("fr"), b.f.get("ax")
        if fr and ax and not (k.elts and not k.mem) and len(ax) == 1 and ax[0] in ("W", "L") and ax[0] != fr and not k.mem:
            self.report("frame", node, "store puts a component along a world axis into a vector of lattice coordinates" if fr == "W" else "store puts a component along a lattice axis into a vector of world coordinates")

    def key_label(self, k):
        return f"[{k.const!r}]" if k.const is not NC else "[]"

    def is_full_slice(self, k):
        return k.fn is not None and k.fn[0][0] == "slice" and all(x is None for x in k.fn[0][1:4])

    def is_full_index(self, b, k):
        """The index selects every element of the array."""
        if self.is_full_slice(k):
            return True
        ax = b.f.get("ax")
        if not k.elts or ax is None or len(k.elts) != len(ax):
            return False
        for e, l in zip(k.elts, ax):
            if self.is_full_slice(e):
                continue
            if e.fn is None or e.fn[0][0] != "slice":
                return False
            lo, hi, step = e.fn[0][1:4]
            if lo is not None or step is not None or hi is None or hi.const is NC or hi.const != l or not isinstance(l, int):
                return False
        return True

    def store_write(self, st, b, field, v, node):
        for m in b.mem:
            o = st.heap.get(m)
            if o is not None and o.kind in ("buf", "list", "dict", "set"):
                self.emit("write", m, field, node, st, v)

    def buf_store(self, st, m, v, node, whole=False, base=None, index=None, aug=False):
        o = st.heap.get(m)
        if o is None:
            return
        self.emit("write", m, "[]", node, st, v, info=(base, index, aug))
        o = st.heap[m].clone()
        c = self.content(v, st)
        facts = {k: x for k, x in c.f.items() if k in CONTENT}
        if "store_facts" in self.hooks:
            facts.update(self.hooks["store_facts"](v, st))
        replace = whole and not aug and not o.summary and base is not None and len(base.mem) == 1 and not base.f.get("view")
        if o.st is None or replace:
            o.st = facts
        else:
            o.st = join_f(o.st, facts)
        o.std = o.std | c.deps | st.pc | (index.deps if index is not None else EMPTY)
        o.ver = self.tick()
        if replace:
            o.whole = o.ver
        st.heap[m] = o

    def content(self, v, st, depth=0):
        """A value standing for the (numeric) elements of v."""
        v = self.norm(v, st)
        if v.elts is not None and not v.mem:
            e = None
            for x in v.elts:
                e = jopt(e, self.content(x, st, depth + 1))
            return (e or scalar("any")).dep(v.deps)
        out = None
        for m in v.mem:
            o = st.heap.get(m)
            if o is None or depth > 6:
                continue
            if o.kind in ("list", "set"):
                for x in o.elts or ():
                    out = jopt(out, self.content(x, st, depth + 1))
                if o.elem is not None:
                    out = jopt(out, self.content(o.elem, st, depth + 1))
            elif o.kind == "buf":
                out = jopt(out, V(frozenset(["num"]), deps=v.deps, f={k: x for k, x in self.recover(v, m, st).items() if k in CONTENT or k == "dt"}))
            else:
                out = jopt(out, scalar("any", v.deps))
        if v.prim or out is None:
            s = V(v.prim or frozenset(["any"]), v.const, deps=v.deps, f={k: x for k, x in v.f.items() if k in CONTENT or k == "dt"})
            out = jopt(out, s)
        return out.dep(v.deps)

    # control flow ----------------------------------------------------------------
    def x_If(self, s, st):
        tv = self.eval(s.test, st)
        if tv is None:
            return None
        t = self.truth(tv, st)
        d = tv.deps
        pc0 = st.pc
        if t is not None:
            self.refine(s.test, st, t)
            if self.fulldeps and self.branchdeps:
                st.pc = pc0 | d
            out = self.exec_block(s.body if t else s.orelse, st)
            if out is not None:
                out.pc = pc0
            return out
        st2 = st.copy()
        a = b = None
        if self.refine(s.test, st, True):
            st.pc = pc0 | d
            a = self.exec_block(s.body, st)
        if self.refine(s.test, st2, False):
            st2.pc = pc0 | d
            b = self.exec_block(s.orelse, st2)
        if a is not None:
            a.pc = pc0
        if b is not None:
            b.pc = pc0
        if a is None or b is None:
            # remaining code runs only under this condition
            return a if b is None else b
        r = join_states(a, b, d)
        r.pc = pc0
        return r

    def x_For(self, s, st):
        it = self.eval(s.iter, st)
        if it is None:
            return None
        ex, el = self.iterate(it, st, s)
        fr = self.frames[-1]
        pc0 = st.pc
        st.pc = pc0 | it.deps
        if ex is not None and unrollable(ex):
            brk = []
            for i, x in enumerate(ex):
                fr.loops.append(([], []))
                self.iter_ctx.append(i)
                self.assign(s.target, x, st, s)
                out = self.exec_block(s.body, st)
                self.iter_ctx.pop()
                bs, cs = fr.loops.pop()
                for c in cs:
                    out = join_states(out, c, it.deps)
                brk.extend(bs)
                if out is None:
                    st = None
                    break
                st = out
            if st is not None and s.orelse:
                st = self.exec_block(s.orelse, st)
            for b in brk:
                st = join_states(st, b, it.deps)
            if st is not None:
                st.pc = pc0
            return st
        if el is None:
            el = unknown(it.deps)
        el = el.dep(it.deps)
        return self._loop(s, st, pc0, lambda cur: self.assign(s.target, el, cur, s) or True, it.deps)

    def _loop(self, s, st, pc0, head, deps, zero=False):
        fr = self.frames[-1]
        brk = []
        res = None
        cur = st
        pcl = st.pc
        zero_state = st.copy() if zero else None
        out = None
        for k in range(3):
            fr.loops.append(([], []))
            self.iter_ctx.append("L")
            ok = head(cur)
            out = self.exec_block(s.body, cur) if ok else None
            self.iter_ctx.pop()
            bs, cs = fr.loops.pop()
            for c in cs:
                out = join_states(out, c, deps)
            brk.extend(bs)
            if out is None:
                break
            out.pc = pcl
            res = out if res is None else join_states(res, out, deps)
            if k < 2:
                cur = res.copy()
                cur.pc = pcl
        if zero_state is not None:
            res = join_states(res, zero_state, deps)
        if res is not None and s.orelse:
            res = self.exec_block(s.orelse, res)
        for b in brk:
            res = join_states(res, b, deps)
        if res is not None:
            res.pc = pc0
        return res

    def x_While(self, s, st):
        tv = self.eval(s.test, st)
        if tv is None:
            return None
        if self.truth(tv, st) is False:
            return self.exec_block(s.orelse, st)
        pc0 = st.pc
        st.pc = pc0 | tv.deps

        def head(cur):
            v = self.eval(s.test, cur)
            if v is None:
                return False
            return self.refine(s.test, cur, True)

        r = self._loop(s, st, pc0, head, tv.deps, zero=self.truth(tv, st) is None)
        if r is not None and not (isinstance(s.test, ast.Constant) and s.test.value):
            self.refine(s.test, r, False)
        return r

    def x_Break(self, s, st):
        fr = self.frames[-1]
        if fr.loops:
            fr.loops[-1][0].append(st)
        return None

    def x_Continue(self, s, st):
        fr = self.frames[-1]
        if fr.loops:
            fr.loops[-1][1].append(st)
        return None

    def x_With(self, s, st):
        for it in s.items:
            v = self.eval(it.context_expr, st)
            if v is None:
                return None
            if it.optional_vars is not None:
                self.assign(it.optional_vars, unknown(v.deps), st, s)
        return self.exec_block(s.body, st)

    def x_Try(self, s, st):
        pre = st.copy()
        sink = []
        if s.handlers:
            self.raise_sinks.append(sink)
        # exits recorded while in the body must run the finally block
        fr = self.frames[-1]
        nret = len(fr.returns)
        try:
            out = self.exec_block(s.body, st)
        finally:
            if s.handlers:
                self.raise_sinks.pop()
        if out is not None and s.orelse:
            out = self.exec_block(s.orelse, out)
        if s.handlers:
            for h in s.handlers:
                entry = pre.copy()
                if out is not None:
                    entry = join_states(entry, out.copy())
                for r in sink:
                    if self.handler_matches(h, r["exc"], st):
                        e = r["st"].copy()
                        e.env = dict(entry.env)
                        entry = join_states(entry, e)
                entry.pc = pre.pc
                if h.name:
                    entry.env[h.name] = unknown()
                hs = self.exec_block(h.body, entry)
                if hs is not None:
                    out = join_states(out, hs) if out is not None else hs
            # explicit raises no handler matches propagate
            for r in sink:
                if not any(self.handler_matches(h, r["exc"], st) for h in s.handlers):
                    if self.raise_sinks:
                        self.raise_sinks[-1].append(r)
        if s.finalbody:
            for i in range(nret, len(fr.returns)):
                v, rs = fr.returns[i]
                rs2 = self.exec_block(s.finalbody, rs)
                fr.returns[i] = (v, rs2 if rs2 is not None else rs)
            if out is not None:
                out = self.exec_block(s.finalbody, out)
            else:
                self.exec_block(s.finalbody, pre.copy())
        return out

    x_TryStar = x_Try

    def handler_matches(self, h, exc, st):
        if h.type is None:
            return True
        names = []
        for t in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]):
            names.append(t.attr if isinstance(t, ast.Attribute) else getattr(t, "id", "?"))
        if "Exception" in names or "BaseException" in names:
            return True
        for n in self.exc_names(exc, st):
            if n in names:
                return True
        return False

    def exc_names(self, exc, st):
        out = set()
        for m in exc.mem:
            o = st.heap.get(m)
            if o is None:
                continue
            if isinstance(o.cls, ClassInfo):
                out |= {c.name for c in o.cls.mro()} | {e.split(".")[-1] for e in o.cls.ext_mro()}
            elif o.cls:
                out.add(str(o.cls).split(".")[-1])
        for f in exc.fn or ():
            if f[0] == "class":
                out |= {c.name for c in f[1].mro()}
            elif f[0] == "ext":
                out.add(f[1].split(".")[-1])
        return out

    def as_if(self, s):
        """A match statement over plain values, classes and wildcards as a chain of conditions."""
        subj = f"__match_{s.lineno}_{s.col_offset}"
        name = ast.Name(subj, ast.Load())

        def test(p):
            if isinstance(p, ast.MatchValue):
                return ast.Compare(name, [ast.Eq()], [p.value])
            if isinstance(p, ast.MatchSingleton):
                return ast.Compare(name, [ast.Is()], [ast.Constant(p.value)])
            if isinstance(p, ast.MatchOr):
                ts = [test(x) for x in p.patterns]
                return None if any(t is None for t in ts) else ast.BoolOp(ast.Or(), ts)
            if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
                return ast.Call(ast.Name("isinstance", ast.Load()), [name, p.cls], [])
            if isinstance(p, ast.MatchAs):
                return ast.Constant(True) if p.pattern is None else test(p.pattern)
            return None
        chain = []
        for c in reversed(s.cases):
            t = test(c.pattern)
            p = c.pattern
            while isinstance(p, ast.MatchAs) and p.pattern is not None:
                p = p.pattern
            bind = c.pattern.name if isinstance(c.pattern, ast.MatchAs) else None
            if t is None or bind and c.guard is not None:
                return None
            if c.guard is not None:
                t = ast.BoolOp(ast.And(), [t, c.guard])
            body = ([ast.Assign([ast.Name(bind, ast.Store())], name)] if bind else []) + c.body
            chain = [ast.If(t, body, chain)]
            ast.copy_location(chain[0], c.body[0])
        out = [ast.Assign([ast.Name(subj, ast.Store())], s.subject)] + chain
        for x in out:
            ast.copy_location(x, s)
            ast.fix_missing_locations(x)
        return out

    def x_Match(self, s, st):
        if s not in self._matches:
            self._matches[s] = self.as_if(s)
        if self._matches[s] is not None:
            return self.exec_block(self._matches[s], st)
        v = self.eval(s.subject, st)
        if v is None:
            return None
        res = None
        for c in s.cases:
            b = st.copy()
            r = self.exec_block(c.body, b)
            res = join_states(res, r, v.deps)
        return join_states(res, st, v.deps)

    # ---------------------------------------------------------------- truth, refinement
    def truth(self, v, st):
        if v.const is not NC:
            try:
                return bool(v.const)
            except Exception:
                return None
        if v.elts is not None and not v.mem and "none" not in v.prim:
            return len(v.elts) > 0
        if v.prim - {"tuple"}:
            return None
        if v.fn and not v.mem:
            return True
        if v.mem and not v.fn:
            res = set()
            for m in v.mem:
                o = st.heap.get(m)
                if o is None:
                    return None
                if o.kind == "list" and o.elts is not None and not o.summary:
                    res.add(len(o.elts) > 0)
                elif o.kind == "inst" and isinstance(o.cls, ClassInfo):
                    if o.cls.lookup("__bool__") or o.cls.lookup("__len__"):
                        return None
                    res.add(True)
                else:
                    return None
            if len(res) == 1:
                return res.pop()
        return None

    def set_ref(self, node, st, v):
        if isinstance(node, ast.NamedExpr):
            node = node.target
        if isinstance(node, ast.Name):
            if node.id in st.env:
                st.env[node.id] = v
        elif isinstance(node, ast.Attribute):
            b = self.peek(node.value, st)
            if b is not None and len(b.mem) == 1 and not b.prim:
                m = next(iter(b.mem))
                o = st.heap.get(m)
                if o is not None and o.kind == "inst" and node.attr in o.fields and not o.summary:
                    o = o.clone()
                    o.fields[node.attr] = v
                    st.heap[m] = o

    def peek(self, node, st):
        """Evaluates a side-effect free reference (names and plain fields only)."""
        if isinstance(node, ast.NamedExpr):
            node = node.target
        if isinstance(node, ast.Name):
            return st.env.get(node.id)
        if isinstance(node, ast.Attribute):
            b = self.peek(node.value, st)
            if b is None or len(b.mem) != 1 or b.prim:
                return None
            o = st.heap.get(next(iter(b.mem)))
            if o is not None and o.kind == "inst":
                return o.fields.get(node.attr)
        return None

    def refine(self, test, st, branch):
        """Narrows st for test == branch. Returns False if that is impossible."""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.refine(test.operand, st, not branch)
        if isinstance(test, ast.BoolOp):
            conj = isinstance(test.op, ast.And)
            if conj == branch:
                for v in test.values:
                    if not self.refine(v, st, branch):
                        return False
                return True
            if len(test.values) == 2:
                # (a and b) false: no narrowing unless one side is decided
                for i in (0, 1):
                    pv = self.peek_truth(test.values[i], st)
                    if pv is conj:
                        return self.refine(test.values[1 - i], st, branch)
            return True
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            op, l, r = test.ops[0], test.left, test.comparators[0]
            if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) and isinstance(r, ast.Constant):
                pos = isinstance(op, (ast.Is, ast.Eq)) == branch
                v = self.peek(l, st)
                if v is None:
                    return True
                if r.value is None:
                    if pos:
                        if not v.maybe_none:
                            return not isinstance(op, (ast.Is, ast.IsNot)) or bool(v.mem is None)
                        self.set_ref(l, st, const(None, v.deps))
                    else:
                        if v.isnone:
                            return False
                        if "none" in v.prim:
                            self.set_ref(l, st, v.clone(prim=v.prim - {"none"}))
                    return True
                if pos:
                    if v.const is not NC and isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
                        try:
                            if not (v.const == r.value):
                                return False
                        except Exception:
                            pass
                    if v.const is NC and not v.mem and r.value in (True, False, 0, 1) or isinstance(r.value, (bool, str, int)):
                        if not v.mem or (isinstance(op, (ast.Is, ast.IsNot)) and isinstance(r.value, bool)):
                            c = const(r.value, v.deps)
                            self.set_ref(l, st, c)
                else:
                    if v.const is not NC and v.const == r.value and type(v.const) is type(r.value):
                        return False
                    if isinstance(r.value, bool) and v.prim == {"bool"} and not v.mem and isinstance(op, (ast.Is, ast.IsNot)):
                        self.set_ref(l, st, const(not r.value, v.deps))
                return True
            return True
        if isinstance(test, ast.Call):
            fn = test.func
            if isinstance(fn, ast.Name) and fn.id == "isinstance" and len(test.args) == 2:
                v = self.peek(test.args[0], st)
                if v is None:
                    return True
                tys = self.type_refs(test.args[1], st)
                if tys is None:
                    return True
                yes, no = self.split_isinstance(v, tys, st)
                w = yes if branch else no
                if w is None:
                    return False
                self.set_ref(test.args[0], st, w)
                return True
            if isinstance(fn, ast.Name) and fn.id in ("hasattr", "callable") and len(test.args) >= 1:
                v = self.peek(test.args[0], st)
                if v is None or fn.id == "callable":
                    return True
                a = test.args[1]
                if isinstance(a, ast.Constant) and a.value == "__len__":
                    scal = frozenset(["int", "float", "num", "bool", "none"])
                    if branch:
                        if not v.mem and v.elts is None and v.prim and v.prim <= scal:
                            return False
                        if v.mem or v.elts is not None:
                            self.set_ref(test.args[0], st, v.clone(prim=v.prim - scal))
                    else:
                        keep = v.prim & (scal | {"any"})
                        if v.elts is not None and not v.prim:
                            return False
                        insts = frozenset(m for m in v.mem if m in st.heap and st.heap[m].kind == "inst" and not (isinstance(st.heap[m].cls, ClassInfo) and st.heap[m].cls.lookup("__len__")))
                        if not keep and not insts:
                            return not v.mem
                        self.set_ref(test.args[0], st, v.clone(prim=keep, mem=insts, elts=None, ))
                return True
            return True
        if isinstance(test, ast.NamedExpr):
            return self.refine(test.target, st, branch)
        if isinstance(test, (ast.Name, ast.Attribute)):
            v = self.peek(test, st)
            if v is None:
                return True
            t = self.truth(v, st)
            if t is not None:
                return t == branch
            if branch:
                if "none" in v.prim:
                    self.set_ref(test, st, v.clone(prim=v.prim - {"none"}))
                elif v.prim == {"bool"} and not v.mem:
                    self.set_ref(test, st, const(True, v.deps))
            else:
                if v.prim == {"bool"} and not v.mem:
                    self.set_ref(test, st, const(False, v.deps))
            return True
        return True

    def peek_truth(self, node, st):
        if isinstance(node, (ast.Name, ast.Attribute)):
            v = self.peek(node, st)
            return None if v is None else self.truth(v, st)
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            t = self.peek_truth(node.operand, st)
            return None if t is None else not t
        if isinstance(node, ast.Compare) and len(node.ops) == 1 and isinstance(node.comparators[0], ast.Constant) and node.comparators[0].value is None:
            v = self.peek(node.left, st)
            if v is None:
                return None
            if v.isnone:
                r = True
            elif not v.maybe_none:
                r = False
            else:
                return None
            return r if isinstance(node.ops[0], (ast.Is, ast.Eq)) else not r
        return None

    def type_refs(self, node, st):
        if isinstance(node, ast.Tuple):
            out = []
            for e in node.elts:
                r = self.type_refs(e, st)
                if r is None:
                    return None
                out.extend(r)
            return out
        v = self.eval(node, st)
        if v is None:
            return None
        if v.elts is not None:
            out = []
            for e in v.elts:
                if not e.fn:
                    return None
                out.extend(e.fn)
            return out
        if not v.fn:
            return None
        return list(v.fn)

    def split_isinstance(self, v, tys, st):
        """(part of v that is an instance, part that is not); None for empty parts."""
        names = set()
        classes = []
        for t in tys:
            if t[0] == "class":
                classes.append(t[1])
            elif t[0] in ("ext", "builtin"):
                names.add(t[1].split(".")[-1])
            else:
                return v, v
        seqs = {"Iterable", "Sequence", "Collection", "Sized"}
        py, pn, my, mn = set(), set(), set(), set()
        for p in v.prim:
            if p == "any":
                py.add(p), pn.add(p)
                continue
            yes = None
            if p == "none":
                yes = "NoneType" in names
            elif p == "bool":
                yes = bool(names & {"bool", "int"})
            elif p == "int":
                yes = bool(names & {"int", "Integral", "Number", "Real"})
            elif p == "float":
                yes = bool(names & {"float", "Number", "Real"})
            elif p == "str":
                yes = bool(names & ({"str"} | seqs))
            elif p == "tuple":
                yes = bool(names & ({"tuple"} | seqs))
            elif p == "num":
                if names & {"int", "float", "integer", "floating", "number", "Number", "int64", "float64", "generic", "Integral", "Real"}:
                    py.add(p), pn.add(p)
                    continue
                yes = False
            if yes is None:
                py.add(p), pn.add(p)
            elif yes:
                py.add(p)
            else:
                pn.add(p)
        for m in v.mem:
            o = st.heap.get(m)
            if o is None:
                my.add(m), mn.add(m)
            elif o.kind == "inst" and isinstance(o.cls, ClassInfo):
                if any(o.cls.issubclass(c) for c in classes):
                    my.add(m)
                elif names and any(n in {e.split(".")[-1] for e in o.cls.ext_mro()} for n in names):
                    my.add(m)
                else:
                    mn.add(m)
            elif o.kind == "buf":
                if o.maybe_list:
                    if names & ({"ndarray", "list", "tuple"} | seqs):
                        my.add(m)
                    if not (names & seqs):
                        mn.add(m)
                elif names & ({"ndarray"} | seqs):
                    my.add(m)
                else:
                    mn.add(m)
            elif o.kind in ("list", "dict", "set"):
                if names & ({o.kind} | seqs) or (o.kind == "dict" and names & {"Mapping", "MutableMapping"}):
                    my.add(m)
                else:
                    mn.add(m)
            else:
                my.add(m), mn.add(m)
        fny = fnn = v.fn
        ey = en = v.elts
        if v.elts is not None:
            if names & ({"tuple"} | seqs):
                en = None
            else:
                ey = None

        def mk(p, m, e):
            if not p and not m and e is None and not v.fn:
                return None
            return V(frozenset(p), v.const if (frozenset(p) == v.prim and frozenset(m) == v.mem) else NC, frozenset(m), e, v.fn, v.deps, v.f, v.ver)

        if v.const is not NC:
            c = v.const
            if not py and not my:
                return None, v
            if not pn and not mn:
                return v, None
            return v, v
        return mk(py, my, ey), mk(pn, mn, en)

    # ---------------------------------------------------------------- iteration
    def iterate(self, v, st, node):
        """(exact element list or None, summary element)."""
        v = self.norm(v, st)
        if v.elts is not None and not v.mem:
            return list(v.elts), None
        if v.const is not NC and isinstance(v.const, (str, tuple)):
            return [const(c, v.deps) for c in v.const][:64], None
        exact, el = None, None
        mems = sorted(v.mem, key=str)
        for m in mems:
            o = st.heap.get(m)
            if o is None:
                continue
            if o.kind in ("list", "set"):
                if o.kind == "set" and "setiter" in self.hooks:
                    v = self.hooks["setiter"](self, v, o, st)
                if o.elts is not None and not o.summary:
                    if len(mems) == 1 and not (v.prim - {"none"}):
                        exact = [x.dep(v.deps) for x in o.elts]
                    for x in o.elts:
                        el = jopt(el, x)
                else:
                    for x in o.elts or ():
                        el = jopt(el, x)
                    if o.elem is not None:
                        el = jopt(el, o.elem)
            elif o.kind == "dict":
                if not o.open and o.elem is None and len(mems) == 1:
                    exact = [const(k) for k in o.fields]
                for k in o.fields:
                    el = jopt(el, const(k))
                if o.key is not None:
                    el = jopt(el, o.key)
            elif o.kind == "buf":
                el = jopt(el, self.row_of(v, m, st, node))
                ax = v.f.get("ax")
                if ax and isinstance(ax[0], int) and len(mems) == 1 and ax[0] <= 6 and not v.prim:
                    base = self.row_of(v, m, st, node)
                    exact = [self.unpack_component(v, i, ax[0], base, st) for i in range(ax[0])]
                elif ax and ax[0] in ("W", "L") and self.dim and len(mems) == 1 and not v.prim:
                    base = self.row_of(v, m, st, node)
                    exact = [self.unpack_component(v, i, self.dim, base, st) for i in range(self.dim)]
            elif o.kind == "inst" and isinstance(o.cls, ClassInfo):
                f = o.cls.lookup("__iter__")
                if isinstance(f, FunctionInfo):
                    r = self.call_function(f, [], {}, st, node, selfv=V(mem=frozenset([m])))
                    if r is not None:
                        _, e = self.iterate(r, st, node) if r.mem and m not in r.mem else (None, unknown(r.deps))
                        el = jopt(el, e if e is not None else unknown(r.deps))
                else:
                    el = jopt(el, unknown(v.deps))
        if el is None:
            el = unknown(v.deps)
        return exact, el.dep(v.deps)

    def row_of(self, v, m, st, node):
        """Element of iterating over axis 0 of an array value."""
        ax = v.f.get("ax")
        f = {k: x for k, x in self.recover(v, m, st).items() if k in ("deg", "tw", "rnd", "role", "mono", "dt", "aff", "rng")}
        o = st.heap.get(m)
        if ax is not None and len(ax) <= 1:
            return V(frozenset(["num"]), deps=v.deps, f=f)
        if ax is not None:
            f["ax"] = ax[1:]
            return V(EMPTY, NC, frozenset([m]), None, None, v.deps, f, v.ver)
        return V(frozenset(["num"]), NC, frozenset([m]), None, None, v.deps, f, v.ver)

    # ---------------------------------------------------------------- expressions
    def eval(self, n, st):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            return unknown(st.pc)
        v = m(n, st)
        return v

    def e_Constant(self, n, st):
        return const(n.value)

    def e_Name(self, n, st):
        v = self.lookup_name(n.id, st)
        return self.norm(v, st)

    def lookup_name(self, name, st):
        if name in st.env:
            return st.env[name]
        fi = self.frames[-1].fi if self.frames else None
        if fi is not None:
            c = fi.closure
            if c is not None and name in c:
                return c[name]
            r = self.p.resolve(fi.module, name)
            if r is not None:
                return self.from_ref(r, st, fi.module, name)
        if hasattr(_b, name):
            return V(fn=(("builtin", name),))
        return unknown()

    def from_ref(self, r, st, module=None, name=None):
        kind, x = r
        if kind == "func":
            return V(fn=(("func", x, None),))
        if kind == "class":
            return V(fn=(("class", x),))
        if kind == "ext":
            return self.ext_const(x)
        if kind == "mod":
            return V(fn=(("mod", x),))
        if kind in ("expr", "mexpr"):
            if kind == "mexpr":
                module, x = x
            return self.module_value(module, x, name, st)
        return unknown()

    def ext_const(self, dotted):
        import math
        tab = {"numpy.pi": math.pi, "numpy.inf": math.inf, "numpy.nan": math.nan, "numpy.e": math.e, "math.pi": math.pi,
               "math.inf": math.inf, "math.nan": math.nan, "numpy.newaxis": None, "numpy.NaN": math.nan, "numpy.Inf": math.inf}
        if dotted in tab:
            return const(tab[dotted])
        return V(fn=(("ext", dotted),))

    def module_value(self, module, expr, name, st):
        if isinstance(expr, ast.Constant):
            return const(expr.value)
        oid = ("glob", module.name, getattr(expr, "lineno", 0), getattr(expr, "col_offset", 0))
        if isinstance(expr, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp)) or (
            isinstance(expr, ast.Call) and isinstance(expr.func, ast.Name) and expr.func.id in ("dict", "list", "set")
        ):
            kind = "dict" if isinstance(expr, (ast.Dict, ast.DictComp)) or (isinstance(expr, ast.Call) and expr.func.id == "dict") else (
                "set" if isinstance(expr, ast.Set) else "list")
            if oid not in st.heap:
                o = Obj(kind, origin=f"global:{module.name}.{name}")
                o.open = True
                if isinstance(expr, ast.List) and all(isinstance(e, ast.Constant) for e in expr.elts):
                    o.elts = tuple(const(e.value) for e in expr.elts)
                st.heap[oid] = o
            return V(mem=frozenset([oid]))
        if isinstance(expr, ast.Subscript):  # typing aliases
            return unknown()
        if oid in self._modconst:
            return self._modconst[oid]
        self._modconst[oid] = unknown()
        fi = FunctionInfo.__new__(FunctionInfo)
        fi.node = expr
        fi.module = module
        fi.cls = None
        fi.name = "<module>"
        fi.kind = "function"
        fi.is_gen = False
        fi.closure = None
        v = self.eval_in_module(expr, fi, st) or unknown()
        if v.mem:
            for m in v.mem:
                o = st.heap.get(m)
                if o is not None and o.origin is None:
                    o = o.clone()
                    o.origin = f"global:{module.name}.{name}"
                    st.heap[m] = o
        else:
            self._modconst[oid] = v
            return v
        self._modconst.pop(oid, None)
        return v

    def e_Attribute(self, n, st):
        b = self.eval(n.value, st)
        if b is None:
            return None
        return self.getattr_(b, n.attr, st, n)

    def getattr_(self, b, attr, st, node):
        h = self.hooks.get("getattr")
        if h:
            h(self, b, attr, st, node)
        out = None
        if b.fn:
            for f in b.fn:
                r = self.fn_attr(f, attr, st, node)
                out = jopt(out, r)
        for m in sorted(b.mem, key=str):
            o = st.heap.get(m)
            if o is None:
                continue
            r = self.obj_attr(m, o, attr, st, node, b)
            if r is None:
                continue
            out = jopt(out, r)
        if out is None or (b.prim - {"none", "tuple"}):
            if b.const is not NC or "str" in b.prim or b.elts is not None:
                r = V(fn=(("pmeth", attr, b),), deps=b.deps)
            elif b.prim & {"any"} or not b.mem:
                r = V(frozenset(["any"]), fn=(("umeth", attr, b),), deps=b.deps)
            else:
                r = self.array_attr(b, attr, st, node)
            out = jopt(out, r)
        return self.norm(out, st)

    def fn_attr(self, f, attr, st, node):
        if f[0] == "ext":
            return self.ext_const(f"{f[1]}.{attr}")
        if f[0] == "mod":
            r = self.p.resolve(f[1], attr)
            if r is None:
                return unknown()
            return self.from_ref(r, st, f[1], attr)
        if f[0] == "class":
            ci = f[1]
            r = ci.lookup(attr)
            if isinstance(r, FunctionInfo):
                if r.kind == "classmethod":
                    return V(fn=(("bound", r, V(fn=(f,))),))
                if r.kind == "staticmethod":
                    return V(fn=(("func", r, None),))
                return V(fn=(("func", r, None),))
            if isinstance(r, tuple):
                return self.class_attr(r[1], attr, r[2], st)
            if attr == "__name__":
                return const(ci.name)
            if attr == "__new__":
                return V(fn=(("ext", "object.__new__"),))
            return unknown()
        if f[0] == "super":
            _, cls, after, selfv = f
            r = cls.lookup(attr, after=after)
            if isinstance(r, FunctionInfo):
                if r.kind == "property":
                    return self.call_function(r, [], {}, st, node, selfv=selfv) or unknown()
                return V(fn=(("bound", r, selfv),))
            return V(fn=(("extsuper", attr, cls, selfv),))
        if f[0] == "builtin":
            return V(fn=(("builtin", f"{f[1]}.{attr}"),))
        return unknown()

    def class_attr(self, ci, attr, expr, st):
        if isinstance(expr, ast.Constant):
            return const(expr.value)
        oid = ("glob", ci.name, attr)
        if oid in st.heap:
            return V(mem=frozenset([oid]))
        fi = next(iter(ci.methods.values()), None)
        if fi is None:
            return unknown()
        v = self.eval_in_module(expr, fi, st) or unknown()
        if v.mem and len(v.mem) == 1:
            o = st.heap[next(iter(v.mem))].clone()
            o.origin = f"global:{ci.name}.{attr}"
            o.summary = False
            st.heap[oid] = o
            return V(mem=frozenset([oid]))
        return v

    def obj_attr(self, m, o, attr, st, node, b):
        if o.kind == "inst" and isinstance(o.cls, ClassInfo):
            ci = o.cls
            r = ci.lookup(attr)
            if isinstance(r, FunctionInfo) and r.kind == "property":
                if r.cached():
                    key = "__cached_" + attr
                    if key in o.fields:
                        return o.fields[key]
                    v = self.call_function(r, [], {}, st, node, selfv=V(mem=frozenset([m])))
                    if v is not None:
                        self.set_field(st, m, key, v, node)
                    return v
                v = self.call_function(r, [], {}, st, node, selfv=V(mem=frozenset([m])))
                return v if v is not None else unknown()
            if attr in o.fields:
                return self.field_read(m, attr, o.fields[attr], st, node)
            if isinstance(r, FunctionInfo):
                if r.kind == "staticmethod":
                    return V(fn=(("func", r, None),))
                if r.kind == "classmethod":
                    return V(fn=(("bound", r, V(fn=(("class", ci),))),))
                return V(fn=(("bound", r, V(mem=frozenset([m]))),))
            if isinstance(r, tuple):
                return self.class_attr(r[1], attr, r[2], st)
            if attr == "__class__":
                return V(fn=(("class", ci),))
            if attr == "__dict__":
                oid = self.alloc(st, "dict", node, tag="__dict__")
                d = st.heap[oid].clone()
                d.fields = dict(o.fields)
                d.cls = ("dictof", m)
                st.heap[oid] = d
                return V(mem=frozenset([oid]))
            if ci.ext_mro():
                return self.ext_inst_attr(m, o, attr, st, node)
            g = ci.lookup("__getattr__")
            if isinstance(g, FunctionInfo):
                return self.call_function(g, [const(attr)], {}, st, node, selfv=V(mem=frozenset([m]))) or unknown()
            if o.open:
                return self.lazy_field(m, o, attr, st, node)
            self.emit("undef", m, attr, node, st)
            return unknown()
        if o.kind == "ext":
            if attr in o.fields:
                return o.fields[attr]
            return self.ext_inst_attr(m, o, attr, st, node)
        if o.kind == "buf":
            return self.array_attr(b.clone(prim=EMPTY, fn=None, mem=frozenset([m])), attr, st, node)
        if o.kind in ("list", "dict", "set"):
            return V(fn=(("cmeth", attr, m, o.kind),), deps=b.deps)
        return None

    def lazy_field(self, m, o, attr, st, node):
        h = self.hooks.get("lazy")
        v = h(self, m, o, attr, st) if h else None
        if v is None:
            v = unknown(frozenset([f"F:{attr}"]))
        o = st.heap[m].clone()
        o.fields[attr] = v
        st.heap[m] = o
        return v

    def field_read(self, m, attr, v, st, node):
        h = self.hooks.get("field_read")
        if h:
            v = h(self, m, attr, v, st, node) or v
        return v.dep(frozenset([f"F:{attr}"]))

    def ext_inst_attr(self, m, o, attr, st, node):
        from . import models
        return models.ext_inst_attr(self, m, o, attr, st, node)

    def array_attr(self, b, attr, st, node):
        from . import models
        return models.array_attr(self, b, attr, st, node)

    # --- containers -----------------------------------------------------------
    def e_Tuple(self, n, st):
        elts = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                v = self.eval(e.value, st)
                if v is None:
                    return None
                ex, el = self.iterate(v, st, n)
                if ex is not None:
                    elts.extend(ex)
                else:
                    d = self.deps_of(elts, {}) | v.deps
                    oid = self.alloc(st, "list", n, tag="startup")
                    o = st.heap[oid].clone()
                    o.elem = el
                    for x in elts:
                        o.elem = jopt(o.elem, x)
                    st.heap[oid] = o
                    for r in n.elts[n.elts.index(e) + 1:]:
                        x = self.eval(r.value if isinstance(r, ast.Starred) else r, st)
                        if x is None:
                            return None
                        o = st.heap[oid].clone()
                        o.elem = jopt(o.elem, x)
                        st.heap[oid] = o
                        d = d | x.deps
                    return V(mem=frozenset([oid]), deps=d, f={"tailelts": None} if False else {})
                continue
            v = self.eval(e, st)
            if v is None:
                return None
            elts.append(v)
        return V(frozenset(["tuple"]), elts=tuple(elts), deps=self.deps_of(elts, {}))

    def e_List(self, n, st):
        t = self.e_Tuple(n, st)
        if t is None:
            return None
        if t.elts is None:
            return t
        return self.mklist(st, n, t.elts, deps=t.deps)

    def mklist(self, st, node, elts=None, elem=None, deps=EMPTY, tag="", kind="list"):
        oid = self.alloc(st, kind, node, tag=tag)
        o = st.heap[oid].clone()
        if elts is not None and len(elts) <= 64:
            o.elts = tuple(elts)
        else:
            e = elem
            for x in elts or ():
                e = jopt(e, x)
            o.elem = e
        st.heap[oid] = o
        return V(mem=frozenset([oid]), deps=deps, ver=self.clock)

    def e_Set(self, n, st):
        t = self.e_Tuple(n, st)
        if t is None:
            return None
        return self.mklist(st, n, None, self._joinall(t.elts or ()), deps=t.deps, kind="set")

    def _joinall(self, vs):
        e = None
        for x in vs:
            e = jopt(e, x)
        return e

    def e_Dict(self, n, st):
        oid = self.alloc(st, "dict", n)
        deps = EMPTY
        items = []
        op = False
        for k, v in zip(n.keys, n.values):
            x = self.eval(v, st)
            if x is None:
                return None
            if k is None:
                for m in x.mem:
                    s = st.heap.get(m)
                    if s is not None and s.kind == "dict":
                        for kk, vv in s.fields.items():
                            items.append((const(kk), vv))
                        op = op or s.open
                        if s.elem is not None:
                            items.append((unknown(), s.elem))
                    else:
                        op = True
                if not x.mem:
                    op = True
                deps = deps | x.deps
                continue
            kv = self.eval(k, st)
            if kv is None:
                return None
            items.append((kv, x))
            deps = deps | x.deps | kv.deps
        o = st.heap[oid].clone()
        o.open = op
        for k, x in items:
            if k.const is not NC and isinstance(k.const, (str, int, float, bool)):
                o.fields[k.const] = x
            else:
                o.elem = jopt(o.elem, x)
                o.key = jopt(o.key, k)
                o.open = True
        st.heap[oid] = o
        return V(mem=frozenset([oid]), deps=deps, ver=self.clock)

    def e_Slice(self, n, st):
        parts = []
        deps = EMPTY
        for x in (n.lower, n.upper, n.step):
            if x is None:
                parts.append(None)
            else:
                v = self.eval(x, st)
                if v is None:
                    return None
                deps = deps | v.deps
                parts.append(None if v.isnone else v)
        return V(frozenset(["slice"]), fn=(("slice", parts[0], parts[1], parts[2]),), deps=deps)

    def e_Subscript(self, n, st):
        b = self.eval(n.value, st)
        if b is None:
            return None
        k = self.eval(n.slice, st)
        if k is None:
            return None
        self.not_a_list(n, st)
        h = self.hooks.get("subscript")
        if h:
            h(self, b, k, st, n)
        return self.getitem(b, k, st, n)

    def not_a_list(self, n, st):
        """A list or tuple cannot be indexed by a tuple: the rest of the path has none."""
        if isinstance(n.slice, ast.Tuple) and isinstance(n.value, ast.Name) and n.value.id in st.env:
            v = st.env[n.value.id]
            keep = frozenset(m for m in v.mem if m not in st.heap or st.heap[m].kind != "list")
            if keep and keep != v.mem:
                st.env[n.value.id] = v.clone(mem=keep)

    def getitem(self, b, k, st, node):
        from . import models
        b = self.norm(b, st)
        deps = b.deps | k.deps
        out = None
        if b.fn:
            for f in b.fn:
                if f[0] == "ext" and f[1] in ("numpy.c_", "numpy.r_", "numpy.mgrid", "numpy.ogrid", "numpy.s_", "numpy.index_exp"):
                    return models.np_index_obj(self, f[1], k, st, node)
            if not b.mem:
                return unknown(deps)
        if b.elts is not None and not b.mem:
            if k.const is not NC and isinstance(k.const, int) and -len(b.elts) <= k.const < len(b.elts):
                return b.elts[k.const].dep(deps)
            if k.fn and k.fn[0][0] == "slice":
                sl = self.const_slice(k)
                if sl is not None:
                    e = b.elts[sl]
                    return V(frozenset(["tuple"]), elts=e, deps=deps)
            e = self._joinall(b.elts)
            return (e if e is not None else unknown()).dep(deps)
        if b.const is not NC and isinstance(b.const, str):
            return scalar("str", deps)
        for m in sorted(b.mem, key=str):
            o = st.heap.get(m)
            if o is None:
                continue
            if o.kind == "buf":
                r = models.array_index(self, b.clone(mem=frozenset([m]), prim=EMPTY), k, st, node)
            elif o.kind == "list":
                r = self.list_index(b, m, o, k, st, node)
            elif o.kind == "dict":
                r = None
                if k.const is not NC and isinstance(k.const, (str, int, float)) and k.const in o.fields:
                    r = o.fields[k.const]
                    if o.elem is not None and o.open and o.origin and str(o.origin).startswith("param"):
                        pass
                elif k.const is not NC and isinstance(k.const, str) and o.open and o.origin:
                    h = self.hooks.get("lazykey")
                    r = h(self, m, o, k.const, st) if h else None
                    if r is None:
                        r = o.elem if o.elem is not None else unknown(frozenset([f"K:{k.const}"]))
                    o2 = o.clone()
                    o2.fields[k.const] = r
                    st.heap[m] = o2
                else:
                    r = o.elem
                    for x in o.fields.values():
                        r = jopt(r, x)
                    if r is None:
                        r = unknown(deps)
                if k.const is not NC and isinstance(k.const, str):
                    r = r.dep(frozenset([f"K:{k.const}"]))
                if "post" in self.hooks and r.mem:
                    r = r.with_f(fromdict=True)
            elif o.kind == "inst" and isinstance(o.cls, ClassInfo):
                f = o.cls.lookup("__getitem__")
                if isinstance(f, FunctionInfo):
                    r = self.call_function(f, [k], {}, st, node, selfv=V(mem=frozenset([m]))) or unknown(deps)
                else:
                    r = unknown(deps)
            else:
                r = unknown(deps)
            out = jopt(out, r)
        if out is None:
            out = unknown(deps)
            keep = {x: y for x, y in b.f.items() if x in ("deg", "tw", "rnd", "role", "mono")}
            out = out.clone(f=keep)
            if "post" in self.hooks:
                out = self.hooks["post"](self, "item", out, (b, k, st, node), {})
        return self.norm(out.dep(deps), st)

    def const_slice(self, k):
        f = k.fn[0]
        vals = []
        for x in f[1:4]:
            if x is None:
                vals.append(None)
            elif x.const is not NC and isinstance(x.const, int):
                vals.append(x.const)
            else:
                return None
        return slice(*vals)

    def list_index(self, b, m, o, k, st, node):
        if k.fn and k.fn[0][0] == "slice":
            sl = self.const_slice(k)
            if o.elts is not None and sl is not None and not o.summary:
                return self.mklist(st, node, o.elts[sl], deps=b.deps | k.deps, tag="slice")
            e = o.elem
            for x in o.elts or ():
                e = jopt(e, x)
            return self.mklist(st, node, None, e, deps=b.deps | k.deps, tag="slice")
        if o.elts is not None and k.const is not NC and isinstance(k.const, int) and -len(o.elts) <= k.const < len(o.elts) and not o.summary:
            return o.elts[k.const]
        e = o.elem
        for x in o.elts or ():
            e = jopt(e, x)
        return e if e is not None else unknown(b.deps)

    # --- comprehension ----------------------------------------------------------
    def _comp(self, n, st, emit):
        env0 = st.env
        st.env = dict(env0)
        pc0 = st.pc
        res = {"exact": [], "elem": None, "deps": EMPTY, "ok": True}

        def run(i):
            if i == len(n.generators):
                v = emit(st)
                if v is None:
                    return False
                if res["exact"] is not None:
                    res["exact"].append(v)
                    if len(res["exact"]) > 64:
                        res["elem"] = self._joinall(res["exact"])
                        res["exact"] = None
                else:
                    res["elem"] = self._jp(res["elem"], v)
                return True
            g = n.generators[i]
            it = self.eval(g.iter, st)
            if it is None:
                return False
            res["deps"] = res["deps"] | it.deps
            ex, el = self.iterate(it, st, n)
            cond_exact = True
            if ex is None or not unrollable(ex):
                if res["exact"] is not None:
                    res["elem"] = self._jp(res["elem"], self._joinall(res["exact"]))
                    res["exact"] = None
                if el is None:
                    el = self._joinall(ex) if ex else unknown(it.deps)
                ex2 = [el]
                tag = ["L"]
            else:
                ex2 = ex
                tag = list(range(len(ex)))
            for t, x in zip(tag, ex2):
                self.iter_ctx.append(t)
                self.assign(g.target, x.dep(it.deps), st, n)
                keep = True
                saved = None
                for c in g.ifs:
                    cv = self.eval(c, st)
                    if cv is None:
                        keep = False
                        break
                    tr = self.truth(cv, st)
                    if self.trace is not None:
                        self.trace.add((id(c), tr))
                    if tr is False:
                        keep = False
                        break
                    if tr is None:
                        if res["exact"] is not None:
                            res["elem"] = self._jp(res["elem"], self._joinall(res["exact"]))
                            res["exact"] = None
                        res["deps"] = res["deps"] | cv.deps
                    st.pc = st.pc | cv.deps
                    self.refine(c, st, True)
                if keep:
                    ok = run(i + 1)
                else:
                    ok = True
                st.pc = pc0
                self.iter_ctx.pop()
                if not ok:
                    return False
            return True

        ok = run(0)
        st.env = env0
        st.pc = pc0
        return res if ok else None

    def _jp(self, a, b):
        return jopt(a, b)

    def e_ListComp(self, n, st):
        r = self._comp(n, st, lambda s: self.eval(n.elt, s))
        if r is None:
            return None
        if r["exact"] is not None:
            return self.mklist(st, n, [x.dep(r["deps"]) for x in r["exact"]], deps=r["deps"])
        return self.mklist(st, n, None, r["elem"] if r["elem"] is not None else unknown(r["deps"]), deps=r["deps"])

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, n, st):
        v = self.e_ListComp(n, st)
        return v

    def e_DictComp(self, n, st):
        keys = []

        def emit(s):
            k = self.eval(n.key, s)
            v = self.eval(n.value, s)
            if k is None or v is None:
                return None
            keys.append((k, v))
            return v

        r = self._comp(n, st, emit)
        if r is None:
            return None
        oid = self.alloc(st, "dict", n)
        o = st.heap[oid].clone()
        for k, v in keys:
            if k.const is not NC and isinstance(k.const, (str, int)) and r["exact"] is not None:
                o.fields[k.const] = v
            else:
                o.elem = jopt(o.elem, v)
                o.key = jopt(o.key, k)
                o.open = True
        st.heap[oid] = o
        return V(mem=frozenset([oid]), deps=r["deps"], ver=self.clock)

    # --- operators ----------------------------------------------------------------
    def e_BinOp(self, n, st):
        a = self.eval(n.left, st)
        if a is None:
            return None
        b = self.eval(n.right, st)
        if b is None:
            return None
        return self.binop(n.op, self.norm(a, st), self.norm(b, st), n, st)

    def binop(self, op, a, b, node, st, inplace=False):
        from . import models
        return models.binop(self, op, a, b, node, st, inplace)

    def e_UnaryOp(self, n, st):
        v = self.eval(n.operand, st)
        if v is None:
            return None
        from . import models
        return models.unary(self, n.op, v, n, st)

    def e_BoolOp(self, n, st):
        conj = isinstance(n.op, ast.And)
        res = None
        pc0 = st.pc
        alive = [st]
        cur = st
        acc = EMPTY
        for i, x in enumerate(n.values):
            v = self.eval(x, cur)
            if v is None:
                break
            t = self.truth(v, cur)
            acc = acc | v.deps
            res = v if res is None else self._booljoin(res, v)
            if t is not None and t != conj:
                res = v if i == 0 else res
                if i == 0:
                    return v
                break
            if t is not None and i < len(n.values) - 1:
                # decided: value of this operand is not the result
                if res is v:
                    res = None
            if i < len(n.values) - 1 and t is None:
                nxt = cur.copy()
                if not self.refine(x, nxt, conj):
                    break
                nxt.pc = pc0 | v.deps
                alive.append(nxt)
                cur = nxt
        out = None
        base_env = st.env
        for s in alive:
            s.pc = pc0
        # effects of later operands are joined; refinements are dropped
        if len(alive) > 1:
            j = None
            for s in alive:
                j = join_states(j, s.copy())
            env = {k: base_env.get(k, j.env[k]) for k in j.env}
            heap = dict(j.heap)
            st.heap = heap
            st.env = {k: (join(base_env[k], j.env[k]) if k in base_env and j.env[k] is not base_env[k] else j.env[k]) for k in j.env}
            st.flags = j.flags
        if self.fulldeps and self.branchdeps and res is not None:
            res = res.dep(acc)
        return res if res is not None else unknown(st.pc)

    def _booljoin(self, a, b):
        if a.prim == {"bool"} and b.prim == {"bool"} and not a.mem and not b.mem:
            vn = None
            return V(frozenset(["bool"]), deps=a.deps | b.deps)
        return join(a.clone(const=NC) if a.const is NC else a, b).dep(a.deps | b.deps)

    def e_Compare(self, n, st):
        from . import models
        l = self.eval(n.left, st)
        if l is None:
            return None
        res = None
        for op, c in zip(n.ops, n.comparators):
            r = self.eval(c, st)
            if r is None:
                return None
            l, r = self.norm(l, st), self.norm(r, st)
            v = models.compare(self, op, l, r, n, st)
            res = v if res is None else self._booljoin(res, v)
            l = r
        return res

    def e_IfExp(self, n, st):
        tv = self.eval(n.test, st)
        if tv is None:
            return None
        t = self.truth(tv, st)
        if t is not None:
            st2 = st
            env0 = st.env
            st.env = dict(env0)
            self.refine(n.test, st, t)
            if self.trace is not None:
                self.trace.add(id(n.body if t else n.orelse))
            v = self.eval(n.body if t else n.orelse, st)
            st.env = env0
            return v.dep(tv.deps) if self.fulldeps and self.branchdeps and v is not None else v
        pc0 = st.pc
        a_st, b_st = st.copy(), st.copy()
        av = bv = None
        if self.refine(n.test, a_st, True):
            a_st.pc = pc0 | tv.deps
            av = self.eval(n.body, a_st)
        if self.refine(n.test, b_st, False):
            b_st.pc = pc0 | tv.deps
            bv = self.eval(n.orelse, b_st)
        env0 = st.env
        if av is None and bv is None:
            return None
        if av is None:
            v, s = bv, b_st
        elif bv is None:
            v, s = av, a_st
        else:
            s = join_states(a_st, b_st, tv.deps)
            v = join(self.norm(av, a_st), self.norm(bv, b_st), tv.deps)
        st.heap, st.flags = s.heap, s.flags
        st.env = {k: (env0[k] if k in env0 else s.env[k]) for k in s.env}
        st.pc = pc0
        return v

    def e_NamedExpr(self, n, st):
        v = self.eval(n.value, st)
        if v is None:
            return None
        self.assign(n.target, v, st, n)
        return v

    def e_Lambda(self, n, st):
        fi = FunctionInfo(n, self.frames[-1].fi.module, None, closure=dict(st.env))
        return V(fn=(("func", fi, None),))

    def e_JoinedStr(self, n, st):
        deps = EMPTY
        for x in n.values:
            if isinstance(x, ast.FormattedValue):
                v = self.eval(x.value, st)
                if v is None:
                    return None
                deps = deps | v.deps
                if x.format_spec is not None:
                    v = self.eval(x.format_spec, st)
                    if v is None:
                        return None
                    deps = deps | v.deps
        return scalar("str", deps)

    def e_FormattedValue(self, n, st):
        return self.eval(n.value, st)

    def e_Starred(self, n, st):
        return self.eval(n.value, st)

    def e_Yield(self, n, st):
        v = const(None) if n.value is None else self.eval(n.value, st)
        if v is None:
            return None
        fr = self.frames[-1]
        if fr.yields is not None:
            fr.yields.append(v.dep(st.pc))
        return unknown()

    def e_YieldFrom(self, n, st):
        v = self.eval(n.value, st)
        if v is None:
            return None
        fr = self.frames[-1]
        ex, el = self.iterate(v, st, n)
        for x in ex or [el]:
            if fr.yields is not None and x is not None:
                fr.yields.append(x.dep(st.pc))
        return unknown()

    def e_Await(self, n, st):
        return self.eval(n.value, st)

    # --- calls -----------------------------------------------------------------------
    def e_Call(self, n, st):
        from . import models
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            fr = self.frames[-1]
            sv = fr.selfv
            if sv is None and fr.fi.cls is not None:
                a = fr.fi.node.args
                nm = (a.posonlyargs + a.args)[0].arg if (a.posonlyargs + a.args) else None
                sv = st.env.get(nm)
            cls = None
            if sv is not None:
                for m in sv.mem:
                    o = st.heap.get(m)
                    if o is not None and isinstance(o.cls, ClassInfo):
                        cls = o.cls
                for f in sv.fn or ():
                    if f[0] == "class":
                        cls = f[1]
            if cls is None or fr.fi.cls is None:
                return unknown()
            return V(fn=(("super", cls, fr.fi.cls, sv),))
        f = self.eval(n.func, st)
        if f is None:
            return None
        args, star = [], None
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, st)
                if v is None:
                    return None
                ex, el = self.iterate(v, st, n)
                if ex is not None and star is None:
                    args.extend(ex)
                else:
                    star = jopt(star, el if el is not None else self._joinall(ex or ()) or unknown())
            else:
                v = self.eval(a, st)
                if v is None:
                    return None
                if star is not None:
                    star = join(star, v)
                else:
                    args.append(v)
        kw, dstar = {}, None
        for k in n.keywords:
            v = self.eval(k.value, st)
            if v is None:
                return None
            if k.arg is not None:
                kw[k.arg] = v
            else:
                got = False
                for m in v.mem:
                    o = st.heap.get(m)
                    if o is not None and o.kind == "dict":
                        got = True
                        for kk, vv in o.fields.items():
                            if isinstance(kk, str):
                                kw[kk] = vv
                        if o.open:
                            dstar = jopt(dstar, o.elem if o.elem is not None else unknown(v.deps))
                if not got:
                    dstar = jopt(dstar, unknown(v.deps))
        args = [self.norm(a, st) for a in args]
        kw = {k: self.norm(a, st) for k, a in kw.items()}
        return self.call(f, args, kw, st, n, star, dstar)

    def call(self, f, args, kw, st, node, star=None, dstar=None):
        from . import models
        alts = list(f.fn or ())
        inst_calls = []
        for m in f.mem:
            o = st.heap.get(m)
            if o is not None and o.kind == "inst" and isinstance(o.cls, ClassInfo):
                c = o.cls.lookup("__call__")
                if isinstance(c, FunctionInfo):
                    alts.append(("bound", c, V(mem=frozenset([m]))))
        if not alts:
            return models.unknown_call(self, f, args, kw, st, node)
        if len(alts) == 1:
            return self.call_one(alts[0], f, args, kw, st, node, star, dstar)
        res, outst = None, None
        base = st.copy()
        for a in alts:
            s = base.copy()
            v = self.call_one(a, f, args, kw, s, node, star, dstar)
            if v is None:
                continue
            res = v if res is None else join(self.norm(res, outst), v)
            outst = join_states(outst, s)
        if res is None:
            return None
        st.heap, st.flags = outst.heap, outst.flags
        return res

    def call_one(self, f, fv, args, kw, st, node, star, dstar):
        from . import models
        kind = f[0]
        h = self.hooks.get("call")
        if h:
            r = h(self, f, args, kw, st, node)
            if r is not None:
                return r
        if kind == "func":
            fi = f[1]
            return self.call_function(fi, args, kw, st, node, None, star, dstar)
        if kind == "bound":
            return self.call_function(f[1], args, kw, st, node, selfv=f[2], star=star, dstar=dstar)
        if kind == "class":
            return self.instantiate(f[1], args, kw, st, node, star, dstar)
        if kind == "partial":
            _, inner, pargs, pkw = f
            k2 = dict(pkw)
            k2.update(kw)
            return self.call(inner, list(pargs) + list(args), k2, st, node, star, dstar)
        return models.call_ext(self, f, fv, args, kw, st, node, star, dstar)

    def instantiate(self, ci, args, kw, st, node, star=None, dstar=None):
        oid = self.alloc(st, "inst", node, cls=ci, tag=ci.name)
        v = V(mem=frozenset([oid]), ver=self.clock)
        init = ci.lookup("__init__")
        if isinstance(init, FunctionInfo):
            r = self.call_function(init, args, kw, st, node, selfv=v, star=star, dstar=dstar)
            if r is None:
                return None
        else:
            o = st.heap[oid].clone()
            o.fields["args"] = V(frozenset(["tuple"]), elts=tuple(args), deps=self.deps_of(args, kw))
            st.heap[oid] = o
        return v.dep(self.deps_of(args, kw) if init is None else EMPTY)

    # ---------------------------------------------------------------- reachability
    def reach(self, v, st, stop_inst=None, out=None):
        """All heap objects reachable from a value: id -> access path."""
        out = {} if out is None else out
        work = [(v, "")]
        while work:
            x, path = work.pop()
            if x is None:
                continue
            if x.elts is not None:
                for i, e in enumerate(x.elts):
                    work.append((e, f"{path}[{i}]"))
            for m in x.mem:
                if m in out:
                    continue
                o = st.heap.get(m)
                if o is None:
                    continue
                if stop_inst and stop_inst(o):
                    continue
                out[m] = path
                if o.kind in ("inst", "ext"):
                    for k, y in o.fields.items():
                        work.append((y, f"{path}.{k}"))
                elif o.kind == "dict":
                    for k, y in o.fields.items():
                        work.append((y, f"{path}[{k!r}]"))
                    work.append((o.elem, f"{path}[*]"))
                elif o.kind in ("list", "set"):
                    for i, y in enumerate(o.elts or ()):
                        work.append((y, f"{path}[{i}]"))
                    work.append((o.elem, f"{path}[*]"))
        return out
