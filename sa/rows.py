"""Row-space analysis: how a value depends on the rows of an input table.

Kinds:  C  no data of the rows        N  the number of rows       H  a shape       M  the number of selected rows
        R  row by row (first axis)    S  some of the rows         E  a single row, inside an iteration over rows
        G  the rows in groups         B  mixes rows (with the term that does)        ?  unknown (with the term)
"""
from .extmodel import ELEMENTWISE, REDUCTIONS
from .terms import T, walk

MIXING = {
    "numpy.cumsum", "numpy.cumprod", "numpy.nancumsum", "numpy.nancumprod", "numpy.sort", "numpy.diff", "numpy.roll",
    "numpy.bincount", "numpy.histogram", "numpy.cov", "numpy.corrcoef", "numpy.gradient", "numpy.ediff1d",
    "numpy.unique", "numpy.argsort", "numpy.argpartition", "numpy.partition", "numpy.convolve", "numpy.trapz",
    "pandas.cut", "pandas.qcut", "pandas.factorize", "pandas.unique", "scipy.stats.rankdata", "scipy.stats.zscore",
    "numpy.polyfit", "numpy.linalg.norm", "numpy.flip", "numpy.flipud", "numpy.histogram2d", "builtins.sorted",
    "builtins.reversed", "builtins.set", "scipy.stats.mode", "statistics.mean", "statistics.median",
}
MIX_METHODS = {
    "cumsum", "cumprod", "cummax", "cummin", "rank", "diff", "shift", "pct_change", "value_counts", "nunique", "mode",
    "quantile", "median", "corr", "cov", "rolling", "ewm", "expanding", "sort_values", "sort_index", "unique",
    "drop_duplicates", "duplicated", "interpolate", "ffill", "bfill", "nlargest", "nsmallest", "idxmax", "idxmin",
    "sample", "head", "tail", "describe", "skew", "kurt", "sem", "mad", "factorize", "cumcount", "first", "last",
}
ROW_METHODS = {
    "predict", "predict_proba", "transform", "predict_extended", "pdf", "pmf", "cdf", "ppf", "sf", "isf", "astype",
    "fillna", "isna", "notna", "isnull", "notnull", "isin", "replace", "apply_row", "to_numpy", "copy", "abs", "round",
    "clip", "get", "reindex", "assign", "rename", "drop", "map", "where", "mask", "between", "eq", "ne", "lt", "gt",
    "le", "ge", "add", "sub", "mul", "div", "pow", "to_frame", "to_dict", "items", "filter", "reset_index", "set_index",
    "logpdf", "logpmf", "logcdf", "flatten", "tolist", "values", "keys", "join", "format", "__call__", "evaluate",
}
CONST_CALLS = {"builtins.type", "builtins.isinstance", "builtins.hasattr", "builtins.callable", "builtins.str",
               "builtins.id", "builtins.repr", "meth.__class__", "meth.get_params"}
STACK = {"numpy.hstack", "numpy.column_stack", "numpy.stack", "numpy.vstack", "numpy.concatenate", "numpy.append",
         "pandas.concat", "numpy.dstack", "numpy.block", "numpy.c_"}
SHAPED = {"numpy.zeros", "numpy.ones", "numpy.empty", "numpy.full", "numpy.ndarray"}
LIKE = {"numpy.zeros_like", "numpy.ones_like", "numpy.empty_like", "numpy.full_like"}
RESHAPE = {"numpy.reshape", "numpy.ravel", "numpy.squeeze", "numpy.expand_dims", "numpy.atleast_1d", "numpy.atleast_2d",
           "numpy.asarray", "numpy.array", "numpy.ascontiguousarray", "numpy.asfortranarray", "pandas.DataFrame",
           "pandas.Series", "builtins.list", "builtins.tuple", "filled", "numpy.broadcast_to", "numpy.nan_to_num",
           "numpy.atleast_3d", "builtins.iter", "builtins.enumerate", "builtins.zip", "builtins.dict", "numpy.split",
           "numpy.array_split", "numpy.hsplit", "builtins.map", "six.iteritems", "numpy.sum_row", "numpy.ma.masked_array"}
ROW_ATTRS = {"values", "index", "iloc", "loc", "iat", "at", "flat", "str", "dt", "real", "cat", "array"}
CONST_ATTRS = {"columns", "dtype", "dtypes", "ndim", "name", "names", "itemsize", "flags", "kind", "char"}
ORDER = "CHNMERSG"


class Rows(object):
    def __init__(self, source, mu, trusted=()):
        self.source = source if isinstance(source, set) else {source}
        self.mu = mu
        self.memo = {}
        self.plain = {}

    def kind(self, t):
        """(kind, witness) of a term."""
        r = self.memo.get(t)
        if r is None:
            self.solve(t)
            r = self.memo[t]
        return r

    def solve(self, t):
        """Kinds of everything t is made of; loops by iteration to a fixed point."""
        todo = sorted((x for x in walk(t, self.mu) if x not in self.memo), key=lambda x: x.uid)
        for x in todo:
            self.memo[x] = ("C", None)
        todo = self.touched(todo)
        for _ in range(12):
            changed = False
            for x in todo:
                old = self.memo[x]
                if x.op == "mu" and x in self.mu:
                    new = self.join(*([old] + [self.memo[k] for k in self.mu[x] if isinstance(k, T)]))
                else:
                    new = self._kind(x)
                if new[0] != old[0]:
                    self.memo[x] = new
                    changed = True
                elif new[1] is not old[1] and old[1] is None:
                    self.memo[x] = new
            if not changed:
                break

    def touched(self, todo):
        """Those made of the rows or of values already classified as such."""
        users, hit, work = {}, set(), []
        for x in todo:
            kids = self.mu[x] if x.op == "mu" and x in self.mu else x.kids()
            for k in kids:
                if isinstance(k, T):
                    users.setdefault(k, []).append(x)
                    if k in self.source or self.memo[k][0] != "C":
                        work.append(x)
            if x in self.source:
                work.append(x)
        while work:
            x = work.pop()
            if x not in hit:
                hit.add(x)
                work += users.get(x, ())
        return [x for x in todo if x in hit]

    # ------------------------------------------------------------- combining
    def join(self, *ks):
        """Alternatives."""
        for bad in ("B", "?"):
            for k in ks:
                if k[0] == bad:
                    return k
        best = ks[0]
        for k in ks[1:]:
            if ORDER.index(k[0]) > ORDER.index(best[0]):
                best = k
        return best

    def combine(self, t, ks):
        """An elementwise operation."""
        if not ks:
            return ("C", None)
        r = self.join(*ks)
        if r[0] in ("B", "?"):
            return r
        kinds = {k[0] for k in ks}
        if "S" in kinds:
            return ("S", None)
        if "R" in kinds:
            return ("R", None)
        return r

    def kw(self, t, name):
        for a in t.args:
            if isinstance(a, T) and a.op == "kw" and a.args[0] == name:
                return a.args[1]
        return None

    # ----------------------------------------------------------------- terms
    def _kind(self, t):
        op, a = t.op, t.args
        if t in self.source:
            return ("R", None)
        if op in ("const", "sym", "ext", "class", "func", "enum", "obj", "any", "lost", "isinstance", "hasattr", "deep",
                  "unbound", "globals", "mod", "cbarg"):
            return ("C", None)
        if op in ("bin", "un", "cmp", "not", "and", "or", "truth", "inv"):
            kids = [self.kind(k) for k in t.kids()]
            if op == "bin" and a[0] == "MatMult":
                return self.dot(t, kids)
            if op == "cmp" and a[0] in ("in",):
                return self.member(t, kids)
            if op in ("bin", "cmp") and {k[0] for k in kids} & set("NM") and {k[0] for k in kids} & set("RSE"):
                return ("B", t)  # the number of rows takes part in the value of a row
            return self.combine(t, kids)
        if op == "len":
            k = self.kind(a[0])
            if k[0] == "R":
                return ("N", None)
            if k[0] == "S":
                return ("M", None)
            return k if k[0] in ("B", "?") else ("C", None)
        if op in ("tuple", "list", "set", "dict", "starred", "fstr", "slice", "kw", "elemval"):
            return self.join(*([("C", None)] + [self.kind(k) for k in t.kids()]))
        if op == "attr":
            return self.attr(t)
        if op == "sub":
            return self.subscript(t)
        if op == "upd":
            return self.update(t)
        if op == "phi":
            return self.choice(t)
        if op in ("elem", "over"):
            k = self.kind(a[0])
            if op == "over":
                return k
            if k[0] in ("R", "S", "N", "M"):
                return ("E", None)
            return k
        if op == "elemidx":
            return ("E", None)
        if op == "comp":
            src = self.kind(a[2]) if len(a) > 2 else ("C", None)
            body = self.kind(a[1])
            if body[0] in ("B", "?"):
                return body
            if src[0] in ("B", "?"):
                return src
            if src[0] in ("R", "N", "S", "M"):
                return ("R" if src[0] in "RN" else "S", None)
            return body
        if op == "call":
            return self.call(t)
        if op == "cb" and len(a) > 1 and isinstance(a[1], T) and a[1].op == "cbarg" and a[0] < len(a[1].args):
            k = self.kind(a[1].args[a[0]])
            return ("R", None) if k[0] == "G" else k
        if op in ("mut", "apply", "cb"):
            kids = [self.kind(k) for k in t.kids()]
            r = self.join(*([("C", None)] + kids))
            if r[0] in ("C", "H", "N", "B", "?"):
                return r
            if op == "apply" and kids[0][0] == "C" and (a[0].op == "sym" or self.fitted_curve(a[0])):
                return self.combine(t, kids)
            return r if op == "mut" and r[0] in ("E",) else ("?", t)
        kids = [self.kind(k) for k in t.kids()]
        r = self.join(*([("C", None)] + kids))
        return r if r[0] in ("C", "B", "?") else ("?", t)

    def fitted_curve(self, f):
        """A curve of scipy, evaluated number by number."""
        return f.op == "call" and f.args[0].startswith("scipy.interpolate.")

    def attr(self, t):
        k = self.kind(t.args[0])
        n = t.args[1]
        if k[0] in ("C", "B", "?"):
            return k
        if n in CONST_ATTRS:
            return ("C", None)
        if n == "shape":
            return ("H", None)
        if n in ("size", "empty"):
            return ("N", None)
        if n in ROW_ATTRS:
            return k
        if n == "T":
            return ("?", t)
        return k if k[0] in ("E",) else ("?", t)

    def full(self, i):
        return i.op == "slice" and all(x.op == "const" and x.args[0] is None for x in i.args)

    def subscript(self, t):
        b, i = t.args[0], t.args[1]
        kb, ki = self.kind(b), self.kind(i)
        if kb[0] in ("B", "?"):
            return kb
        if ki[0] in ("B", "?"):
            return ki
        if kb[0] == "H":
            if i.op == "const" and i.args[0] == 0:
                return ("N", None)
            return ("C", None) if i.op == "const" else ("?", t)
        if kb[0] in ("C", "N", "M"):
            return ki if ki[0] not in ("N", "M") else ("?", t)
        if kb[0] in ("E", "G"):
            return kb
        first = i.args[0] if i.op == "tuple" and i.args else i
        kf = self.kind(first)
        if kf[0] in ("R", "S"):
            return ("S", None)
        if kf[0] == "E":
            return ("E", None)
        if self.full(first) or first.op == "ext" or first.op == "const" and first.args[0] in (None, Ellipsis):
            return kb
        if first.op == "slice":
            return ("B", t)
        if first.op == "const" and isinstance(first.args[0], int) and not isinstance(first.args[0], bool):
            if b.op == "call" and b.args[0] in TUPLES:
                return kb
            if not self.array(b):
                return kb
            return ("B", t)
        if kf[0] in ("N", "M"):
            return ("B", t)
        return kb if i.op != "tuple" else ("?", t)

    def array(self, b):
        """Every alternative of b is a table, not a collection of them."""
        seen, todo = set(), [b]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == "phi":
                todo += x.args[1:]
            elif x.op == "mu":
                todo += [k for k in self.mu.get(x, ()) if isinstance(k, T)]
            elif x.op == "upd" and self.kind(x.args[1])[0] in ("R", "S"):
                continue
            elif x.op == "upd":
                todo.append(x.args[0])
            elif x.op in ("tuple", "list", "dict", "mut", "comp", "const", "any", "lost"):
                return False
            elif x.op == "call" and x.args[0] in TUPLES:
                return False
        return True

    def update(self, t):
        b, i, v = t.args[:3]
        kb, ki, kv = self.kind(b), self.kind(i), self.kind(v)
        for k in (kb, ki, kv):
            if k[0] in ("B", "?"):
                return k
        if ki[0] in ("R", "S", "E"):
            return ("R", None) if ki[0] != "E" or kb[0] in ("R", "C", "N") else kb
        return self.join(kb, kv)

    def benign(self, c, x, y):
        """The two values agree when the batch-wide condition c is decided the other way."""
        if c.op == "not":
            return self.benign(c.args[0], y, x)
        if c.op == "and":
            return any(self.benign(k, x, y) for k in c.args)
        if c.op == "or":
            return all(self.benign(k, x, y) for k in c.args if self.kind(k)[0] not in ("C", "N"))
        if c.op == "truth":
            return self.benign(c.args[0], x, y)
        if c.op == "cmp" and c.args[0] in ("==", "<", "!=", "<="):
            z = [k for k in c.args[1:] if k.op == "const"]
            o = [k for k in c.args[1:] if k.op != "const"]
            if len(z) == 1 and len(o) == 1 and z[0].args[0] in (0, 1) and o[0].op in ("len", "call", "attr"):
                neg = c.args[0] == "==" or c.args[0] == "<" and c.args[1] is o[0]
                return self.benign(o[0], y, x) if neg else self.benign(o[0], x, y)
        m = None
        if c.op == "call" and c.args[0] in ("numpy.any", "builtins.any", "numpy.sum", "numpy.count_nonzero") and len(c.args) == 2:
            m = c.args[1]
        if c.op == "len" and c.args[0].op == "sub":
            m = c.args[0].args[1]
        if c.op == "call" and c.args[0] in ("numpy.all", "builtins.all") and len(c.args) == 2:
            # x only when everything is selected: y must then give the same
            return self.agrees_all(c.args[1], x, y)
        if m is None:
            return False
        return self.agrees_none(m, x, y)

    def agrees_none(self, m, x, y):
        """x and y are the same for rows where the mask m is false."""
        while x.op == "upd" and self.within(x.args[1], m):
            x = x.args[0]
        while y.op == "upd" and self.within(y.args[1], m):
            y = y.args[0]
        if x is y:
            return True
        for p, q in ((x, y), (y, x)):
            if p.op == "call" and p.args[0] == "numpy.where" and len(p.args) == 4 and self.within(p.args[1], m):
                return p.args[3] is q
        return False

    def agrees_all(self, m, x, y):
        """x and y are the same for rows where the mask m is true."""
        for p, q in ((x, y), (y, x)):
            if p.op == "call" and p.args[0] == "numpy.where" and len(p.args) == 4 and p.args[1] is m:
                if p.args[2] is q:
                    return True
            if p.op == "upd" and p.args[1] is m:
                v = p.args[2]
                if v is q or v.op == "sub" and v.args[0] is q and v.args[1] is m:
                    return True
            if p.op == "upd" and p.args[1].op in ("not", "inv", "un") and m in p.args[1].kids() and p.args[0] is q:
                return True
        return False

    def within(self, i, m):
        if i is m:
            return True
        if i.op == "tuple" and i.args and i.args[0] is m:
            return True
        if i.op == "bin" and i.args[0] == "BitAnd":
            return self.within(i.args[1], m) or self.within(i.args[2], m)
        if i.op == "and":
            return any(self.within(k, m) for k in i.args)
        return False

    def choice(self, t):
        c, x, y = t.args
        kx, ky, kc = self.kind(x), self.kind(y), self.kind(c)
        r = self.join(kx, ky)
        if kc[0] in ("C", "E", "H"):
            return r
        if kc[0] == "?":
            return kc if r[0] != "B" else r
        if x is y:
            return r
        if kc[0] in ("R", "S"):
            # truth of a whole column: only meaningful for a single element
            return r if "E" in (kx[0], ky[0]) else self.join(r, ("?", c))
        if r[0] in ("B", "?"):
            return r
        if kc[0] in ("N", "M"):
            if self.only_empty(c):
                return r
            return ("B", c)
        if self.benign(c, x, y) or self.only_types(x, y):
            return r
        return kc

    def only_types(self, x, y):
        """The alternatives differ in the width of the numbers only."""
        return self.untyped(x) is self.untyped(y)

    def untyped(self, x):
        r = self.plain.get(x)
        if r is not None:
            return r
        r = x
        if x.op == "call" and x.args[0] == "cast" and len(x.args) > 2:
            r = T("call", "cast", self.untyped(x.args[1]), self.family(x.args[2]))
            if r.args[1].op == "call" and r.args[1].args[0] == "cast" and r.args[1].args[2] is r.args[2]:
                r = r.args[1]
        elif x.op == "phi":
            a, b = self.untyped(x.args[1]), self.untyped(x.args[2])
            r = a if a is b else T("phi", x.args[0], a, b)
        elif x.op == "upd":
            r = T("upd", self.untyped(x.args[0]), x.args[1], self.untyped(x.args[2]), *x.args[3:])
        self.plain[x] = r
        return r

    def family(self, d):
        n = str(d.args[0]) if d.args else ""
        for f in ("uint", "int", "float", "complex", "bool"):
            if f in n:
                return T("const", f)
        return d

    def only_empty(self, c):
        """A condition that distinguishes no rows from some rows."""
        if c.op in ("not", "truth"):
            return self.only_empty(c.args[0])
        if c.op in ("len",) or c.op == "attr" and c.args[1] in ("size", "empty"):
            return True
        if c.op == "cmp":
            z = [k.args[0] for k in c.args[1:] if k.op == "const"]
            return len(z) == 1 and (z[0] == 0 or z[0] == 1 and c.args[0] == "<" and c.args[2].op == "const"
                                    or z[0] == 1 and c.args[0] == "<=" and c.args[1].op == "const")
        if c.op in ("and", "or"):
            return all(self.only_empty(k) for k in c.args if self.kind(k)[0] == "N")
        if c.op == "phi":
            return all(self.only_empty(k) or self.kind(k)[0] == "C" for k in c.args)
        return False

    def dot(self, t, kids):
        r = self.join(*kids)
        if r[0] in ("B", "?", "C", "H", "N", "E"):
            return r
        return (kids[0][0], None) if kids[0][0] in "RS" and kids[-1][0] in ("C", "N", "H") else ("B", t)

    def member(self, t, kids):
        if kids[-1][0] in ("R", "S"):
            return ("?", t)
        return self.combine(t, kids)

    def call(self, t):
        q = t.args[0]
        args = [k for k in t.args[1:] if isinstance(k, T)]
        pos = [k for k in args if k.op != "kw"]
        kids = [self.kind(k.args[1] if k.op == "kw" else k) for k in args]
        r = self.join(*([("C", None)] + kids))
        if r[0] in ("B", "?") or r[0] == "C":
            return r
        if q in CONST_CALLS:
            return ("C", None)
        if r[0] == "H":
            return ("R", None) if q in SHAPED | {"numpy.broadcast_to", "numpy.resize"} else ("?", t)
        name = q.split(".")[-1]
        if r[0] in ("N", "M"):
            if q in SHAPED | {"numpy.repeat", "numpy.tile"}:
                return ("R" if r[0] == "N" else "S", None)
            if q in ("builtins.range", "numpy.arange", "numpy.linspace"):
                return r
            if q in ELEMENTWISE or q in ("builtins.min", "builtins.max"):
                return r
            return ("?", t)
        if r[0] == "G":
            cb = self.kw(t, "<callback>")
            if q in ("meth.transform", "meth.apply") and kids[0][0] == "G" and cb is not None:
                # what the function makes of a group is row by row
                return ("R", None) if q == "meth.transform" and self.kind(cb)[0] in ("R", "C") else ("?", t)
            return ("B", t) if q.startswith("meth.") and kids[0][0] == "G" else ("?", t)
        if r[0] == "E":
            return r
        if q == "meth.groupby" and kids[0][0] == "R" and all(k[0] == "C" for k in kids[1:]):
            return ("G", None)
        if q in SHAPED:
            return ("R", None)
        if q in LIKE:
            return ("R", None)
        if q == "numpy.where" and len(pos) == 1 or q in ("numpy.flatnonzero", "numpy.nonzero", "numpy.argwhere"):
            return ("S", None)
        if q == "numpy.dot":
            return self.dot(t, kids)
        if q in ("numpy.searchsorted", "numpy.digitize", "numpy.interp", "numpy.take", "numpy.isin", "numpy.in1d",
                 "numpy.polyval"):
            i = {"numpy.searchsorted": 1, "numpy.digitize": 0, "numpy.interp": 0, "numpy.take": 1, "numpy.isin": 0, "numpy.in1d": 0,
                 "numpy.polyval": 1}[q]
            if len(kids) > i and all(k[0] in ("C", "N") for j, k in enumerate(kids) if j != i and j < len(pos)):
                return ("R", None) if kids[i][0] == "R" else kids[i]
            return ("B", t)
        if q in ELEMENTWISE:
            return self.combine(t, kids)
        if q in REDUCTIONS or q in MIXING or q in ("numpy.linalg.norm",):
            if q in ("builtins.max", "builtins.min", "builtins.any", "builtins.all") and len(pos) > 1:
                return self.combine(t, kids)
            ax = self.kw(t, "axis")
            if ax is None and len(pos) > 1 and q not in ("numpy.bincount", "numpy.histogram", "numpy.quantile", "numpy.percentile"):
                ax = pos[1]
            if ax is not None and ax.op == "const" and isinstance(ax.args[0], int) and ax.args[0] != 0:
                return r
            if ax is not None and ax.op == "const" and ax.args[0] == "columns":
                return r
            return ("B", t)
        if q in STACK:
            return r if r[0] == "R" else ("?", t)
        if q in RESHAPE:
            return r
        if q == "numpy.repeat":
            return ("?", t)
        if q.startswith("meth."):
            if name in MIX_METHODS:
                ax = self.kw(t, "axis")
                if ax is not None and ax.op == "const" and ax.args[0] in (1, "columns"):
                    return r
                return ("B", t)
            if name in ROW_METHODS:
                return self.combine(t, kids)
            return ("?", t)
        if q.startswith(("scipy.special.", "scipy.stats.", "math.")):
            return self.combine(t, kids)
        return ("?", t)


TUPLES = {"numpy.split", "numpy.where", "numpy.nonzero", "numpy.unique", "numpy.shape", "builtins.tuple", "builtins.list",
          "numpy.array_split", "numpy.hsplit", "builtins.zip", "numpy.frexp", "numpy.modf", "meth.groupby"}
