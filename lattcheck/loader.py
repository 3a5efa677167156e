"""Program model: modules, classes, functions and resolved imports of the package.

Nothing of the analysed package is imported or executed; everything is derived from
the syntax trees of the files in the working tree.
"""
import ast
import hashlib
import os


class AnalysisError(Exception):
    """The analysis could not be carried out (vanished anchor, unparsable file)."""


class FunctionInfo:
    __slots__ = ("node", "module", "cls", "name", "kind", "is_gen", "closure", "_loc")

    def __init__(self, node, module, cls=None, closure=None):
        self.node = node
        self.module = module
        self.cls = cls
        self.name = getattr(node, "name", "<lambda>")
        self.closure = closure
        self.kind = "function"
        if cls is not None:
            self.kind = "method"
            for d in getattr(node, "decorator_list", []):
                t = d
                if isinstance(t, ast.Call):
                    t = t.func
                nm = t.attr if isinstance(t, ast.Attribute) else getattr(t, "id", "")
                if nm in ("classmethod", "staticmethod"):
                    self.kind = nm
                elif nm in ("property", "cached_property"):
                    self.kind = "property"
                elif nm == "setter":
                    self.kind = "setter"
                elif nm in ("deleter",):
                    self.kind = "deleter"
        self.is_gen = False
        if not isinstance(node, ast.Lambda):
            self.is_gen = _has_yield(node)

    @property
    def qualname(self):
        if self.cls is not None:
            return f"{self.cls.name}.{self.name}"
        return f"{self.module.name}.{self.name}"

    def cached(self):
        """True when a memoising decorator wraps the function."""
        for d in getattr(self.node, "decorator_list", []):
            t = d.func if isinstance(d, ast.Call) else d
            nm = t.attr if isinstance(t, ast.Attribute) else getattr(t, "id", "")
            if nm in ("lru_cache", "cache", "cached_property", "memoize"):
                return True
        return False

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]

    def __repr__(self):
        return f"<fn {self.qualname}>"


def _has_yield(fn):
    stack = list(fn.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


class ClassInfo:
    def __init__(self, node, module):
        self.node = node
        self.module = module
        self.name = node.name
        self.methods = {}
        self.setters = {}
        self.attrs = {}
        self.base_exprs = node.bases
        self.bases = []
        self.ext_bases = []
        self._collect(node.body)

    def _collect(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fi = FunctionInfo(st, self.module, self)
                if fi.kind == "setter":
                    self.setters[st.name] = fi
                elif fi.kind == "deleter":
                    pass
                else:
                    self.methods[st.name] = fi
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and st.value is not None:
                if isinstance(st.target, ast.Name):
                    self.attrs[st.target.id] = st.value
            elif isinstance(st, (ast.If, ast.Try)):
                self._collect(st.body)

    def mro(self):
        out = [self]
        for b in self.bases:
            for c in b.mro():
                if c not in out:
                    out.append(c)
        return out

    def ext_mro(self):
        out = []
        for c in self.mro():
            out.extend(c.ext_bases)
        return out

    def lookup(self, name, after=None):
        """Finds a method along the MRO (after class `after` for super())."""
        seen = after is None
        for c in self.mro():
            if seen:
                if name in c.methods:
                    return c.methods[name]
                if name in c.attrs:
                    v = c.attrs[name]
                    if isinstance(v, ast.Name) and v.id in c.methods:
                        return c.methods[v.id]
                    return ("attr", c, v)
            elif c is after:
                seen = True
        return None

    def lookup_setter(self, name):
        for c in self.mro():
            if name in c.setters:
                return c.setters[name]
        return None

    def issubclass(self, other):
        return other in self.mro()

    def __repr__(self):
        return f"<class {self.name}>"


class ModuleInfo:
    def __init__(self, name, path, tree):
        self.name = name
        self.path = path
        self.tree = tree
        self.names = {}  # name -> ('func',fi) ('class',ci) ('ext',dotted) ('expr',node) ('mod',ModuleInfo)


class Program:
    def __init__(self, root="/repo", package="lattpy"):
        self.root = root
        self.package = package
        self.modules = {}
        self.digest = hashlib.sha256()
        pkgdir = os.path.join(root, package)
        if not os.path.isdir(pkgdir):
            raise AnalysisError(f"package directory {pkgdir} not found")
        files = []
        for d, dirs, fs in os.walk(pkgdir):
            dirs[:] = sorted(x for x in dirs if x not in ("tests", "__pycache__"))
            for f in sorted(fs):
                if f.endswith(".py"):
                    files.append(os.path.join(d, f))
        for path in files:
            rel = os.path.relpath(path, root)[:-3].replace(os.sep, ".")
            if rel.endswith(".__init__"):
                rel = rel[: -len(".__init__")]
            with open(path, encoding="utf-8") as fh:
                src = fh.read()
            self.digest.update(src.encode())
            try:
                tree = ast.parse(src, filename=path)
            except SyntaxError as e:
                raise AnalysisError(f"cannot parse {path}: {e}")
            self.modules[rel] = ModuleInfo(rel, path, tree)
        for m in list(self.modules.values()):
            self._index(m, m.tree.body)
        self.classes = {}
        for m in self.modules.values():
            for kind, obj in m.names.values():
                if kind == "class" and obj.module is m:
                    self.classes.setdefault(obj.name, obj)
        for m in self.modules.values():
            for kind, obj in list(m.names.values()):
                if kind == "class" and obj.module is m and not getattr(obj, "_linked", False):
                    obj._linked = True
                    for b in obj.base_exprs:
                        r = self.resolve_expr(b, m)
                        if r and r[0] == "class":
                            obj.bases.append(r[1])
                        elif r and r[0] == "ext":
                            obj.ext_bases.append(r[1])

    # -- name resolution -----------------------------------------------------
    def _index(self, m, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                m.names[st.name] = ("func", FunctionInfo(st, m))
            elif isinstance(st, ast.ClassDef):
                m.names[st.name] = ("class", ClassInfo(st, m))
            elif isinstance(st, (ast.Import, ast.ImportFrom)):
                for k, v in self.import_bindings(st, m).items():
                    m.names[k] = v
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        m.names[t.id] = ("expr", st.value)
                    elif isinstance(t, ast.Tuple) and isinstance(st.value, ast.Tuple):
                        for a, b in zip(t.elts, st.value.elts):
                            if isinstance(a, ast.Name):
                                m.names[a.id] = ("expr", b)
            elif isinstance(st, ast.AnnAssign):
                if isinstance(st.target, ast.Name) and st.value is not None:
                    m.names[st.target.id] = ("expr", st.value)
            elif isinstance(st, (ast.If, ast.With)):
                self._index(m, st.body)
                self._index(m, getattr(st, "orelse", []))
            elif isinstance(st, ast.Try):
                for h in st.handlers:
                    self._index(m, h.body)
                self._index(m, st.body)

    def import_bindings(self, st, m):
        out = {}
        if isinstance(st, ast.Import):
            for a in st.names:
                if a.asname:
                    out[a.asname] = self._modref(a.name)
                else:
                    top = a.name.split(".")[0]
                    out[top] = self._modref(top)
        else:
            base = st.module or ""
            if st.level:
                parts = m.name.split(".")
                is_pkg = m.path.endswith("__init__.py")
                up = st.level - (1 if is_pkg else 0)
                parts = parts[: len(parts) - up] if up else parts
                base = ".".join(parts + ([st.module] if st.module else []))
            for a in st.names:
                out[a.asname or a.name] = ("from", (base, a.name))
        return out

    def _modref(self, dotted):
        if dotted in self.modules:
            return ("mod", self.modules[dotted])
        return ("ext", dotted)

    def resolve(self, m, name, depth=0):
        r = m.names.get(name)
        return self.settle(r, depth)

    def settle(self, r, depth=0):
        if r is None or depth > 8:
            return None
        if r[0] == "from":
            base, nm = r[1]
            if base in self.modules:
                mm = self.modules[base]
                if f"{base}.{nm}" in self.modules and nm not in mm.names:
                    return ("mod", self.modules[f"{base}.{nm}"])
                x = mm.names.get(nm)
                if x is None:
                    return None
                if x[0] == "expr":
                    return ("mexpr", (mm, x[1]))
                return self.settle(x, depth + 1)
            if f"{base}.{nm}" in self.modules:
                return ("mod", self.modules[f"{base}.{nm}"])
            return ("ext", f"{base}.{nm}")
        return r

    def resolve_expr(self, node, m):
        if isinstance(node, ast.Name):
            return self.resolve(m, node.id)
        if isinstance(node, ast.Attribute):
            b = self.resolve_expr(node.value, m)
            if b is None:
                return None
            if b[0] == "ext":
                return ("ext", f"{b[1]}.{node.attr}")
            if b[0] == "mod":
                return self.resolve(b[1], node.attr)
        if isinstance(node, ast.Constant) and isinstance(node.value, str):
            return self.resolve(m, node.value)
        return None

    # -- access --------------------------------------------------------------
    def cls(self, name):
        if name not in self.classes:
            raise AnalysisError(f"anchor class {name} not found in the package")
        return self.classes[name]

    def all_functions(self):
        for m in self.modules.values():
            for kind, obj in m.names.values():
                if kind == "func" and obj.module is m:
                    yield obj
                elif kind == "class" and obj.module is m:
                    yield from obj.methods.values()
                    yield from obj.setters.values()
