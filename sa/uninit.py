"""Arrays made without values: are all their entries written before they are used?

For every array made by numpy.empty and the like the entries that the function writes are collected as boxes of index ranges whose ends are
linear in one symbol.  An array is reported only when every write to it is understood and some entries are certainly left out.
"""
import ast

MAKERS = {"numpy.empty", "numpy.ndarray", "numpy.empty_like"}
READERS = ("numpy.", "builtins.", "math.", "scipy.", "pandas.")
WRITERS = {"numpy.copyto", "numpy.put", "numpy.place", "numpy.putmask", "numpy.fill_diagonal", "numpy.put_along_axis"}
FULL, OPEN, MISSING = "full", "undecided", "missing"


class Unknown(Exception):
    pass


class Arrays(object):
    def __init__(self, v):
        self.v = v
        self.order = {n: i for i, n in enumerate(sorted((x for x in v.nodes if hasattr(x, "lineno")), key=lambda x: (x.lineno, x.col_offset)))}

    def sites(self):
        """(call, key, verdict)"""
        for n in self.v.nodes:
            if isinstance(n, ast.Call) and self.v.ext(n.func) in MAKERS:
                yield n, self.verdict(n)

    # ------------------------------------------------------------ linear expressions
    def lin(self, e, depth=0):
        """(symbol, offset)"""
        if isinstance(e, ast.Constant) and isinstance(e.value, int):
            return "", e.value
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            s, c = self.lin(e.operand, depth)
            if s == "":
                return "", -c
            raise Unknown
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub)):
            a, b = self.lin(e.left, depth), self.lin(e.right, depth)
            if isinstance(e.op, ast.Add) and (not a[0] or not b[0]):
                return a[0] or b[0], a[1] + b[1]
            if isinstance(e.op, ast.Sub) and not b[0]:
                return a[0], a[1] - b[1]
            raise Unknown
        if isinstance(e, ast.Name):
            b = self.v.binds.get(e.id, [])
            if len(b) == 1 and b[0] is not None and not isinstance(b[0], ast.AugAssign) and depth < 5:
                try:
                    return self.lin(b[0], depth + 1)
                except Unknown:
                    pass
            return e.id, 0
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("len", "int") and len(e.args) == 1:
            if e.func.id == "int":
                return self.lin(e.args[0], depth)
            return "rows of " + self.name(e.args[0], depth), 0
        if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Attribute) and e.value.attr == "shape" and \
                isinstance(e.slice, ast.Constant) and e.slice.value == 0:
            return "rows of " + self.name(e.value.value, depth), 0
        if isinstance(e, (ast.Attribute, ast.Subscript, ast.Call)):
            return ast.dump(e), 0
        raise Unknown

    def name(self, e, depth):
        return ast.dump(e)

    # ------------------------------------------------------------ where the array lives
    def verdict(self, call):
        v = self.v
        par = v.up(call)
        shape = next((k.value for k in call.keywords if k.arg == "shape"), call.args[0] if call.args else None)
        dims = None
        if v.ext(call.func) != "numpy.empty_like" and shape is not None:
            dims = list(shape.elts) if isinstance(shape, (ast.Tuple, ast.List)) else [shape]
            if any(isinstance(d, ast.Constant) and d.value == 0 for d in dims):
                return FULL
            if len(dims) == 1 and not self._count(dims[0]):
                dims = None
        if isinstance(par, (ast.Assign, ast.AnnAssign)):
            ts = par.targets if isinstance(par, ast.Assign) else [par.target]
            if len(ts) == 1 and isinstance(ts[0], (ast.Name, ast.Attribute)):
                return self.written(ts[0], call, dims)
            return OPEN
        while isinstance(par, (ast.Tuple, ast.List)) and isinstance(v.up(par), (ast.Return, ast.Tuple, ast.List)):
            par = v.up(par)
        if isinstance(par, ast.Return):
            return MISSING
        if isinstance(par, (ast.BinOp, ast.UnaryOp)):
            return MISSING
        return OPEN

    def _count(self, e):
        """The expression is certainly a number and not a shape."""
        if isinstance(e, (ast.Constant, ast.BinOp)):
            return True
        if isinstance(e, ast.Name):
            b = self.v.binds.get(e.id, [])
            return len(b) == 1 and b[0] is not None and self._count(b[0])
        if isinstance(e, ast.Call):
            return isinstance(e.func, ast.Name) and e.func.id in ("len", "int", "sum", "max", "min")
        return isinstance(e, ast.Subscript) and isinstance(e.value, ast.Attribute) and e.value.attr == "shape"

    def written(self, target, call, dims):
        v = self.v
        key = ast.dump(target).replace("Store()", "Load()")
        first = self.order[target]
        uses = [n for n in v.nodes if isinstance(n, type(target)) and n is not target and ast.dump(n).replace("Store()", "Load()").replace(
            "Del()", "Load()") == key]
        if any(isinstance(n.ctx, (ast.Store, ast.Del)) and not isinstance(v.up(n), ast.AugAssign) for n in uses):
            return OPEN
        if not uses and isinstance(target, ast.Attribute):
            return MISSING
        writes, reads = [], []
        for n in sorted(uses, key=lambda x: self.order[x]):
            kind = self.use(n)
            if kind == "open":
                return OPEN
            if kind == "read":
                reads.append(n)
            elif kind != "shape":
                writes.append((n, kind))
        if not writes:
            return MISSING if reads else FULL
        if any(k[1] == "all" and not self.conditional(k[0], call) for k in writes):
            return FULL
        ahead = [w for w in writes if not reads or self.order[w[0]] < self.order[reads[0]]]
        if reads and not self.looped(reads[0], call) and not self.in_write(reads[0], writes):
            writes = ahead
        if not writes:
            return MISSING
        tests = [self.under(n, call) for n, _ in writes]
        if all(tests) and not any(self.opposite(a, b) for i, a in enumerate(tests) for b in tests[:i]):
            return MISSING
        boxes, masks, some = [], [], []
        for n, k in writes:
            if k == "all":
                return OPEN
            if k[0] == "augmented":
                some.append(n)
                continue
            idx = k[1]
            where = self.conditional(n, call)
            try:
                if where == "open":
                    raise Unknown
                m = self.mask(idx)
                if m is not None:
                    masks.append((m, where))
                    continue
                if dims is None:
                    raise Unknown
                box = self.box(idx, dims, n, call)
            except Unknown:
                return OPEN
            boxes.append((box, where))
        if masks and not boxes:
            if len(masks) == 1 and not masks[0][1]:
                return MISSING
            return OPEN
        if masks:
            return OPEN
        if not boxes:
            return MISSING
        cond = [b for b, w in boxes if w]
        sure = [b for b, w in boxes if not w]
        if cond and (sure or len(cond) > 1):
            return FULL if self.covers(sure, dims) is True else OPEN
        return {True: FULL, False: MISSING, None: OPEN}[self.covers(sure, dims)]

    def looped(self, n, call):
        """In a loop that the making of the array is not in."""
        above, x = set(), call
        while x is not None:
            above.add(x)
            x = self.v.up(x)
        x = n
        while x is not None and x not in above:
            if isinstance(x, (ast.For, ast.While, ast.FunctionDef, ast.Lambda, ast.Try)):
                return True
            x = self.v.up(x)
        return False

    def in_write(self, n, writes):
        st = self.v.stmt(n)
        return any(self.v.stmt(w) is st for w, _ in writes)

    def under(self, n, call):
        """The test of a condition without alternative that the write is directly under."""
        above, x = set(), call
        while x is not None:
            above.add(x)
            x = self.v.up(x)
        x, out = n, None
        while x is not None and x not in above:
            p = self.v.up(x)
            if isinstance(p, (ast.For, ast.While, ast.Try, ast.With, ast.FunctionDef, ast.Lambda)) and p not in above:
                return None
            if isinstance(p, ast.If) and p not in above:
                if p.orelse or out is not None:
                    return None
                out = p.test
            x = p
        return out

    @staticmethod
    def opposite(a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.Not) and ast.dump(x.operand) == ast.dump(y):
                return True
        if isinstance(a, ast.Compare) and isinstance(b, ast.Compare):
            return {ast.dump(z) for z in [a.left] + a.comparators} & {ast.dump(z) for z in [b.left] + b.comparators} != set()
        return False

    def use(self, n):
        """all: every entry is written; (index, slice): some are; read; open: cannot be told."""
        v = self.v
        par = v.up(n)
        if isinstance(par, ast.Subscript) and par.value is n:
            if isinstance(par.ctx, ast.Store):
                st = v.up(par)
                if isinstance(st, ast.AugAssign):
                    return "augmented", par.slice
                if isinstance(st, (ast.Tuple, ast.List, ast.Assign, ast.AnnAssign, ast.For)):
                    return "all" if self.whole(par.slice) else ("index", par.slice)
                return "open"
            up = v.up(par)
            if isinstance(up, ast.Subscript) and up.value is par and isinstance(up.ctx, ast.Store):
                return "open"
            if isinstance(up, ast.Call) and par in up.args and not self.reader(up):
                return "open"
            if isinstance(up, ast.Attribute) or isinstance(up, (ast.Assign, ast.keyword)):
                return "open"
            return "read"
        if isinstance(par, ast.Attribute) and par.value is n:
            if par.attr in ("shape", "size", "ndim", "dtype"):
                return "shape"
            up = v.up(par)
            if par.attr == "fill" and isinstance(up, ast.Call):
                return "all"
            return "open" if par.attr in ("flat", "T", "real", "reshape", "ravel", "view", "put", "itemset", "partition", "setfield") else "read"
        if isinstance(par, ast.AugAssign):
            return ("augmented", None) if par.target is n else "read"
        if isinstance(par, ast.Subscript) and par.slice is n:
            return "read"
        if isinstance(par, ast.Call) and n in par.args:
            q = v.ext(par.func)
            if q in ("builtins.len", "numpy.shape"):
                return "shape"
            return "read" if self.reader(par) else "open"
        if isinstance(par, ast.keyword):
            up = v.up(par)
            if par.arg == "out":
                return "open"
            return "read" if isinstance(up, ast.Call) and self.reader(up) else "open"
        while isinstance(par, (ast.Tuple, ast.List)) and isinstance(v.up(par), (ast.Return, ast.Tuple, ast.List)):
            par = v.up(par)
        if isinstance(par, (ast.Return, ast.BinOp, ast.Compare, ast.UnaryOp)):
            return "read"
        return "open"

    def reader(self, call):
        q = self.v.ext(call.func) or ""
        return q.startswith(READERS) and q not in WRITERS and not any(k.arg == "out" for k in call.keywords)

    @staticmethod
    def whole(s):
        if isinstance(s, ast.Constant) and s.value is Ellipsis:
            return True
        if isinstance(s, ast.Slice):
            return s.lower is None and s.upper is None and s.step is None
        return isinstance(s, ast.Tuple) and all(Arrays.whole(x) for x in s.elts)

    def conditional(self, n, call):
        """Under a condition that the making of the array is not under: False, True or open."""
        v = self.v
        above = set()
        x = call
        while x is not None:
            above.add(x)
            x = v.up(x)
        out, x, below = False, v.up(n), n
        while x is not None and x not in above:
            if isinstance(x, ast.If):
                out = "open" if x.orelse or out else True
            elif isinstance(x, (ast.While, ast.Try, ast.With, ast.IfExp, ast.comprehension)):
                return "open"
            elif isinstance(x, (ast.FunctionDef, ast.Lambda)):
                return "open"
            elif isinstance(x, ast.For) and any(isinstance(y, (ast.Break, ast.Continue)) for y in ast.walk(x)):
                return "open"
            below, x = x, v.up(x)
        return out

    # ------------------------------------------------------------ what is written
    def mask(self, idx):
        """Text of a mask that selects some of the entries."""
        e = idx
        if isinstance(e, ast.Name) and any(isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.Invert) and isinstance(x.operand, ast.Name)
                                           and x.operand.id == e.id for x in self.v.nodes):
            return ast.dump(idx)
        if isinstance(e, ast.Name):
            b = self.v.binds.get(e.id, [])
            if len(b) == 1 and b[0] is not None:
                e = b[0]
        if isinstance(e, ast.Compare) or isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Invert):
            return ast.dump(idx)
        if isinstance(e, ast.Call) and (self.v.ext(e.func) or "") in ("numpy.isfinite", "numpy.isnan", "numpy.isinf", "numpy.logical_and",
                                                                      "numpy.logical_or", "numpy.logical_not", "numpy.all", "numpy.any"):
            return ast.dump(idx)
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitAnd, ast.BitOr)):
            return ast.dump(idx)
        return None

    def box(self, idx, dims, n, call):
        parts = list(idx.elts) if isinstance(idx, ast.Tuple) else [idx]
        if len(parts) > len(dims):
            raise Unknown
        out = []
        for i, d in enumerate(dims):
            end = self.lin(d)
            if i >= len(parts):
                out.append((("", 0), end))
                continue
            x = parts[i]
            if isinstance(x, ast.Slice):
                if x.step is not None:
                    raise Unknown
                lo = self.at(x.lower, end) if x.lower is not None else ("", 0)
                hi = self.at(x.upper, end) if x.upper is not None else end
                out.append((lo, hi))
                continue
            r = self.loop(x, n)
            if r is not None:
                out.append(r)
                continue
            if not isinstance(x, (ast.Constant, ast.UnaryOp)) and self.lin(x)[0] != end[0]:
                raise Unknown
            lo = self.at(x, end)
            out.append((lo, (lo[0], lo[1] + 1)))
        return out

    def at(self, e, end):
        s, c = self.lin(e)
        return (end[0], end[1] + c) if s == "" and c < 0 else (s, c)

    def loop(self, x, n):
        """The range over which an index runs in the loops around the write."""
        names = [y.id for y in ast.walk(x) if isinstance(y, ast.Name)]
        f = self.v.up(n)
        while f is not None:
            if isinstance(f, ast.For):
                ts = [y.id for y in ast.walk(f.target) if isinstance(y, ast.Name)]
                if set(ts) & set(names):
                    if not isinstance(f.target, ast.Name):
                        raise Unknown
                    s, c = self.lin(x)
                    it = f.iter
                    if s != f.target.id or len(self.v.binds.get(s, [])) != 1 and sum(
                            1 for b in self.v.binds[s] if b is not None) or not isinstance(it, ast.Call):
                        raise Unknown
                    fn = it.func.id if isinstance(it.func, ast.Name) else it.func.attr if isinstance(it.func, ast.Attribute) else ""
                    if fn not in ("range", "prange", "arange", "xrange"):
                        raise Unknown
                    a = [self.lin(y) for y in it.args]
                    step = 1
                    if len(a) == 3:
                        if a[2] not in (("", 1), ("", -1)):
                            raise Unknown
                        step = a[2][1]
                    lo, hi = (("", 0), a[0]) if len(a) == 1 else (a[0], a[1])
                    if step < 0:
                        lo, hi = (hi[0], hi[1] + 1), (lo[0], lo[1] + 1)
                    return (lo[0], lo[1] + c), (hi[0], hi[1] + c)
            f = self.v.up(f)
        return None

    def covers(self, boxes, dims):
        """True, False or None: the boxes fill the array."""
        if not boxes:
            return False
        try:
            ends = [self.lin(d) for d in dims]
            cuts = []
            for i, e in enumerate(ends):
                pts = {("", 0), e}
                for b in boxes:
                    pts |= {b[i][0], b[i][1]}
                if len({s for s, _ in pts if s}) > 1:
                    return None
                cuts.append(sorted(pts, key=lambda q: (bool(q[0]), q[1])))
        except Unknown:
            return None
        cells = [[]]
        for i, c in enumerate(cuts):
            stop = c.index(ends[i])
            cells = [x + [(c[j], c[j + 1], c)] for x in cells for j in range(c.index(("", 0)), stop)]
        for cell in cells:
            if not any(all(c.index(b[i][0]) <= c.index(lo) and c.index(b[i][1]) >= c.index(hi) for i, (lo, hi, c) in enumerate(cell)) for b in boxes):
                return False
        return True
