"""C06: loops that renumber the entries of a neighbor array site by site.

A loop that decrements the numbers above a removed site has to take into account how often it has
done so already; a loop that replaces old numbers by new ones has to look the old ones up in the
numbers of before, and in the right direction."""
import ast

ASC = {"unique", "where", "flatnonzero", "nonzero", "argwhere", "sort", "arange", "sorted", "range", "union1d", "setdiff1d", "intersect1d"}
WRAP = {"asarray", "array", "atleast_1d", "list", "tuple", "asanyarray", "ravel", "copy", "astype", "flatten", "tolist", "ascontiguousarray"}


def fname(c):
    return c.func.attr if isinstance(c.func, ast.Attribute) else c.func.id if isinstance(c.func, ast.Name) else ""


class Fn:
    def __init__(self, fi):
        self.fi = fi
        self.params = {a.arg for a in fi.node.args.args + fi.node.args.posonlyargs + fi.node.args.kwonlyargs}
        self.defs = {}
        for n in ast.walk(fi.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.defs.setdefault(t.id, []).append(n)
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        for e in t.elts:
                            if isinstance(e, ast.Name):
                                self.defs.setdefault(e.id, []).append(None)
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.NamedExpr)) and isinstance(n.target, ast.Name):
                self.defs.setdefault(n.target.id, []).append(None)
            elif isinstance(n, (ast.For, ast.comprehension)):
                for e in ast.walk(n.target):
                    if isinstance(e, ast.Name):
                        self.defs.setdefault(e.id, []).append(None)

    def order(self, e, before, depth=0):
        """'asc', 'desc', 'caller' (whatever the caller passed), or None."""
        if depth > 6:
            return None
        flip = {"asc": "desc", "desc": "asc"}
        if isinstance(e, ast.Call):
            nm = fname(e)
            if nm == "sorted":
                kw = {k.arg: k.value for k in e.keywords}
                if "key" in kw:
                    return None
                r = kw.get("reverse")
                if r is None:
                    return "asc"
                return ("desc" if r.value else "asc") if isinstance(r, ast.Constant) else None
            if nm in ("reversed", "flip", "flipud") and e.args:
                o = self.order(e.args[0], before, depth + 1)
                return flip.get(o)
            if nm in ("arange", "range"):
                return "asc" if len(e.args) < 3 else None
            if nm in ASC:
                return "asc"
            if nm in WRAP:
                x = e.func.value if isinstance(e.func, ast.Attribute) and not (isinstance(e.func.value, ast.Name) and e.func.value.id in ("np", "numpy")) else e.args[0] if e.args else None
                return self.order(x, before, depth + 1) if x is not None else None
            return None
        if isinstance(e, ast.Subscript):
            s = e.slice
            if isinstance(s, ast.Slice) and s.lower is None and s.upper is None and isinstance(s.step, ast.UnaryOp) and isinstance(s.step.op, ast.USub):
                return flip.get(self.order(e.value, before, depth + 1))
            if isinstance(s, ast.Constant) and s.value == 0 and isinstance(e.value, ast.Call) and fname(e.value) in ("where", "nonzero"):
                return "asc"
            return None
        if isinstance(e, ast.Name):
            ds = [d for d in self.defs.get(e.id, [])]
            if None in ds:
                return None
            if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("sort", "reverse") and isinstance(n.func.value, ast.Name) and n.func.value.id == e.id for n in ast.walk(self.fi.node)):
                return None
            ds = [d for d in ds if d.lineno < before]
            if not ds:
                return "caller" if e.id in self.params else None
            if len(ds) > 1:
                return None
            # an assignment in a branch may be skipped
            if not any(s is ds[0] for s in self.fi.node.body):
                return None
            return self.order(ds[0].value, ds[0].lineno, depth + 1)
        return None

    def same(self, a, b, line, depth=0):
        """Both expressions denote the same array object."""
        if ast.dump(_load(a)) == ast.dump(_load(b)):
            return True
        if depth > 3:
            return False
        for x, y in ((a, b), (b, a)):
            if isinstance(x, ast.Name):
                ds = self.defs.get(x.id, [])
                if len(ds) == 1 and ds[0] is not None and ds[0].lineno < line and isinstance(ds[0].value, (ast.Name, ast.Attribute)):
                    # the source must not have been rebound since
                    v = ds[0].value
                    if not any(isinstance(n, ast.Assign) and ds[0].lineno < n.lineno and any(ast.dump(_load(t)) == ast.dump(_load(v)) for t in n.targets) for n in ast.walk(self.fi.node)):
                        if self.same(v, y, line, depth + 1):
                            return True
        return False


def _load(n):
    n = ast.parse(ast.unparse(n), mode="eval").body
    return n


def linear(e, names):
    """Coefficients {name: c, 1: c} of an integer linear expression over loop variables; None if it is not one."""
    if isinstance(e, ast.Constant) and isinstance(e.value, int):
        return {1: e.value}
    if isinstance(e, ast.Name):
        return {e.id: 1} if e.id in names else None
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
        a = linear(e.operand, names)
        return None if a is None else {k: -v for k, v in a.items()}
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub)):
        a, b = linear(e.left, names), linear(e.right, names)
        if a is None or b is None:
            return None
        s = 1 if isinstance(e.op, ast.Add) else -1
        return {k: a.get(k, 0) + s * b.get(k, 0) for k in set(a) | set(b)}
    return None


def header(loop):
    """(position variable, element variable, iterable, start) of 'for i, x in enumerate(it)' or 'for x in it'."""
    it = loop.iter
    if isinstance(it, ast.Call) and fname(it) == "enumerate" and it.args and isinstance(loop.target, ast.Tuple) and len(loop.target.elts) == 2 and all(isinstance(e, ast.Name) for e in loop.target.elts):
        st = it.args[1] if len(it.args) > 1 else next((k.value for k in it.keywords if k.arg == "start"), ast.Constant(0))
        if not isinstance(st, ast.Constant) or not isinstance(st.value, int):
            return None
        return loop.target.elts[0].id, loop.target.elts[1].id, it.args[0], st.value
    if isinstance(loop.target, ast.Name):
        return None, loop.target.id, it, 0
    return None


def mask_of(ix, body, line):
    """The comparison that an index stands for."""
    if isinstance(ix, ast.Compare):
        return ix
    if isinstance(ix, ast.Name):
        ds = [s for s in body if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == ix.id and s.lineno < line]
        if len(ds) == 1 and isinstance(ds[0].value, ast.Compare):
            return ds[0].value
    return None


def removal(F, loop, s, hd, R, at, public):
    pos, el, it, start = hd
    t = s.target
    c = mask_of(t.slice, loop.body, s.lineno)
    if c is None or len(c.ops) != 1 or not isinstance(s.value, ast.Constant):
        return
    l, r, op = c.left, c.comparators[0], c.ops[0]
    flip = {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE}
    op = type(op)
    if F.same(r, t.value, s.lineno) and not F.same(l, t.value, s.lineno):
        l, r, op = r, l, flip.get(op)
    if op not in (ast.Gt, ast.GtE) or not F.same(l, t.value, s.lineno):
        return
    # a local counter next to the loop variable
    names = {x for x in (pos, el) if x}
    cnt = counter(F, loop, s)
    if cnt:
        names.add(cnt[0])
    lin = linear(r, names)
    if lin is None or lin.get(el) != 1:
        return
    order = F.order(it, loop.lineno)
    if order is None or order == "caller" and not public:
        return
    R.count("renumbering_loops")
    if s.value.value != 1:
        R.add("C06.renumber-loop", f"{F.fi.qualname}:amount", at, f"{F.fi.qualname} moves the site numbers above a removed site by {s.value.value} instead of 1")
        return
    off = lin.get(1, 0)
    b = 0
    if pos:
        b += lin.get(pos, 0)
        off += start * lin.get(pos, 0)
    if cnt:
        b += lin.get(cnt[0], 0)
        off += cnt[1] * lin.get(cnt[0], 0)
    if op is ast.GtE:
        off -= 1
    if order == "caller":
        R.add("C06.renumber-loop", f"{F.fi.qualname}:order", at, f"{F.fi.qualname} renumbers the sites behind each removed one in the order in which the caller lists them: the numbers come out right for sorted lists only")
        return
    want = -1 if order == "asc" else 0
    if b != want or off not in (-1, 0):
        R.add("C06.renumber-loop", f"{F.fi.qualname}:threshold", at,
              f"{F.fi.qualname} decrements the site numbers above '{ast.unparse(r)}' while it goes through the removed sites in {'ascending' if order == 'asc' else 'descending'} order: numbers that were moved already are compared with the number of before" if b != want
              else f"{F.fi.qualname} decrements the site numbers from '{ast.unparse(r)}' on, which is not the position of the removed site")


def counter(F, loop, s):
    """A variable set to a constant before the loop and incremented by one at its end or start: (name, value during iteration 0)."""
    for i, x in enumerate(loop.body):
        if isinstance(x, ast.AugAssign) and isinstance(x.op, ast.Add) and isinstance(x.target, ast.Name) and isinstance(x.value, ast.Constant) and x.value.value == 1:
            init = [n for n in ast.walk(F.fi.node) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == x.target.id for t in n.targets)]
            if len(init) == 1 and isinstance(init[0].value, ast.Constant) and isinstance(init[0].value.value, int) and init[0].lineno < loop.lineno:
                return x.target.id, init[0].value.value + (1 if x.lineno < s.lineno else 0)
    return None


def replacement(F, loop, s, hd, R, at):
    pos, el, it, start = hd
    t = s.targets[0]
    c = mask_of(t.slice, loop.body, s.lineno)
    if pos is None or c is None or len(c.ops) != 1 or not isinstance(c.ops[0], ast.Eq):
        return
    l, r = c.left, c.comparators[0]
    if isinstance(l, ast.Name) and l.id in (pos, el):
        l, r = r, l
    if not (isinstance(r, ast.Name) and r.id in (pos, el) and isinstance(s.value, ast.Name) and s.value.id in (pos, el)) or r.id == s.value.id:
        return
    # the iterable reorders the rows of arrays in the same function
    src = ast.dump(_load(it))
    if not any(isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and ast.dump(_load(n.slice)) == src for n in ast.walk(F.fi.node)):
        return
    R.count("renumbering_loops")
    if r.id == pos:
        R.add("C06.renumber-loop", f"{F.fi.qualname}:direction", at, f"{F.fi.qualname} replaces new site numbers by old ones: row n of the reordered arrays is the former row {ast.unparse(it)}[n]")
    elif F.same(l, t.value, s.lineno):
        R.add("C06.renumber-loop", f"{F.fi.qualname}:alias", at, f"{F.fi.qualname} looks the old site numbers up in the array it is renumbering: numbers that were replaced already are replaced again")


def renumber_loops(p, R):
    for fi in p.all_functions():
        one(fi, R)


def one(fi, R):
    F = None
    for loop in ast.walk(fi.node):
        if not isinstance(loop, ast.For):
            continue
        for s in loop.body:
            sub = isinstance(s, ast.AugAssign) and isinstance(s.op, ast.Sub) and isinstance(s.target, ast.Subscript)
            rep = isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Subscript)
            if not (sub or rep):
                continue
            hd = header(loop)
            if hd is None:
                continue
            F = F or Fn(fi)
            at = f"{fi.module.path}:{s.lineno} in {fi.qualname}"
            if sub:
                removal(F, loop, s, hd, R, at, not fi.name.startswith("_"))
            else:
                replacement(F, loop, s, hd, R, at)
