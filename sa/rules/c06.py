"""C06: every training row counts with its weight."""
from .. import world
from ..framework import parallel
from ..pointwise import is_mask
from ..state import K
from ..terms import T, show, walk
from .c29 import Lengths, values

WEIGHTED, MEAN, GIVEN, EXTREME = "sum-over-rows-weighted", "divided-by-number-of-rows", "weights-handed-on", "extreme-of-rows"
COLUMN = "#weights"
# what predictions and the course of training are made of
LEARNED = {"factors_link", "unfitted_factors_link", "global_scale_link_", "prior_pred_link_offset_", "insample_loss_",
           "unfitted_uncertainties_link", "initial_loss_"}
SUMS = {"numpy.sum", "numpy.nansum", "numpy.cumsum", "numpy.nancumsum", "meth.sum", "builtins.sum", "meth.cumsum", "numpy.add.reduce",
        "math.fsum"}
MEANS = {"numpy.mean", "numpy.nanmean", "meth.mean", "numpy.std", "numpy.var", "numpy.nanstd", "numpy.nanvar", "meth.std", "meth.var",
         "numpy.median", "numpy.nanmedian", "meth.median", "numpy.percentile", "numpy.quantile", "numpy.nanpercentile",
         "numpy.nanquantile", "meth.quantile", "statistics.mean", "statistics.median"}
AVERAGE = {"numpy.average"}
EXTREMES = {"numpy.max", "numpy.min", "numpy.amax", "numpy.amin", "numpy.nanmax", "numpy.nanmin", "meth.max", "meth.min"}
COUNTS = {"numpy.bincount", "numpy.histogram"}
DOTS = {"numpy.dot", "numpy.vdot", "numpy.inner", "numpy.matmul", "meth.dot"}
KEEP = {"cast", "numpy.asarray", "numpy.array", "numpy.abs", "numpy.absolute", "numpy.fabs", "numpy.sqrt", "numpy.square", "numpy.negative",
        "numpy.nan_to_num", "numpy.ascontiguousarray", "numpy.split", "numpy.array_split", "numpy.ravel", "meth.astype", "meth.copy",
        "numpy.copy", "meth.to_numpy", "numpy.sign", "numpy.take", "meth.take", "numpy.squeeze", "numpy.reshape", "builtins.float",
        "builtins.list", "builtins.iter", "builtins.enumerate", "builtins.zip", "pandas.Series", "numpy.float64", "numpy.flip"}
TIMES = {"numpy.multiply": "all", "numpy.divide": "first", "numpy.true_divide": "first"}


class Sums(Lengths):
    """Row kinds in which the rows of a group (E) stay rows, in whatever order."""

    def _kind(self, t):
        op, a = t.op, t.args
        if op == "call":
            if a[0].startswith(("scipy.optimize.", "scipy.interpolate.", "scipy.stats.", "sklearn.")):
                return ("C", None)
            if a[0] in ("numpy.argsort", "meth.argsort", "numpy.lexsort", "numpy.unique", "pandas.unique"):
                return self.kind(a[1])
            if a[0] in ("numpy.hstack", "numpy.column_stack"):
                return self.join(*[self.kind(k) for k in t.kids()])
            if a[0] in ("numpy.split", "numpy.array_split"):
                return ("G", None) if self.kind(a[1])[0] in "RSE" else self.kind(a[1])
            if a[0] in SUMS | COUNTS | MEANS | AVERAGE | EXTREMES and kw(t, "axis") is None:
                return ("C", None)
        if op == "upd" and self.scattered(a[1]):
            return self.kind(a[0])
        if op == "mut":
            return self.join(*[self.kind(k) for k in t.kids()])
        if op in ("sub", "elem") and self.kind(a[0])[0] == "G" and a[-1].op != "slice":
            return ("S", None)
        r = Lengths._kind(self, t)
        if op == "sub" and r[0] == "?":
            b, i = self.kind(a[0])[0], self.kind(a[1])[0]
            if b in "RSE" and i in "CRSE":
                return ("R" if b == "R" else b, None)
            if b == "C" and i in "RSE":
                return (i, None)
        return r

    def scattered(self, i):
        """An entry chosen by a value of the row: the rows are put together."""
        return i.op == "sub" and self.kind(i)[0] == "E"


class Weights(object):
    """Which values are a multiple of the weight of their row."""

    def __init__(self, it):
        self.it = it
        self.memo = {}

    def prop(self, t):
        r = self.memo.get(t)
        if r is None:
            self.memo[t] = True  # inside a loop
            r = self.memo[t] = self._prop(t)
        return r

    def _prop(self, t):
        op, a = t.op, t.args
        if op == "const":
            return isinstance(a[0], (int, float)) and a[0] == 0
        if op == "sub":
            if any(k.op == "const" and k.args[0] == COLUMN for k in ([a[1]] + list(a[1].kids()))):
                return True
            if a[1].op == "tuple" and len(a[1].args) == 2 and a[1].args[0].op == "slice" and a[1].args[1].op == "const":
                c = self.columns(a[0], a[1].args[1].args[0], set())
                if c is not None:
                    return c
            return self.prop(a[0])
        if op == "bin":
            if a[0] in ("Mult", "BitAnd"):
                return self.prop(a[1]) or self.prop(a[2])
            if a[0] in ("Div", "FloorDiv", "Mod"):
                return self.prop(a[1])
            if a[0] in ("Add", "Sub"):
                return self.prop(a[1]) and self.prop(a[2])
            if a[0] == "Pow":
                return self.prop(a[1]) and a[2].op == "const" and isinstance(a[2].args[0], (int, float)) and a[2].args[0] > 0
            return False
        if op == "un":
            return self.prop(a[1])
        if op == "phi":
            return self.prop(a[1]) and self.prop(a[2])
        if op == "upd":
            return self.prop(a[0]) and self.prop(a[2])
        if op == "mu" and t in self.it.mu:
            return all(self.prop(k) for k in self.it.mu[t] if isinstance(k, T))
        if op in ("elem", "over", "elemval", "cast", "kw", "starred"):
            return any(self.prop(k) for k in t.kids())
        if op == "attr":
            return a[1] in ("values", "T", "array") and self.prop(a[0])
        if op == "filled":
            return self.prop(a[-1])
        if op == "comp":
            return self.prop(a[1])
        if op == "call":
            if a[0] in KEEP:
                return len(a) > 1 and self.prop(a[1])
            if a[0] in TIMES:
                return any(self.prop(k) for k in (a[1:3] if TIMES[a[0]] == "all" else a[1:2]))
            if a[0] in ("numpy.where",) and len(a) > 3:
                return self.prop(a[2]) and self.prop(a[3])
            if a[0] in ("numpy.zeros", "numpy.zeros_like"):
                return True
        if op in ("tuple", "list"):
            return bool(a) and all(self.prop(k) for k in t.kids())
        return False

    def width(self, t):
        """Number of columns of a part put beside others."""
        if t.op == "call" and t.args[0] in ("numpy.hstack", "numpy.column_stack") and t.args[1].op in ("tuple", "list"):
            n = [self.width(k) for k in t.args[1].args]
            return None if None in n else sum(n)
        if t.op == "sub" and t.args[1].op == "tuple" and t.args[1].args and (
                t.args[1].args[-1].op == "ext" and t.args[1].args[-1].args[0] == "numpy.newaxis" or const_none(t.args[1].args[-1])):
            return 1
        return None

    def columns(self, t, c, seen):
        """Whether column c of t is a multiple of the weights; None when not known."""
        if t in seen:
            return True
        seen.add(t)
        op, a = t.op, t.args
        if op == "call" and a[0] in ("numpy.hstack", "numpy.column_stack") and a[1].op in ("tuple", "list"):
            for k in a[1].args:
                n = self.width(k)
                if n is None and a[0] == "numpy.column_stack":
                    n = 1
                if n is None:
                    return None
                if c < n:
                    return self.prop(k) if n == 1 else self.columns(k, c, seen)
                c -= n
            return None
        if op == "call" and a[0] in ("numpy.zeros", "numpy.empty"):
            return True
        if op == "call" and a[0] in ("numpy.split", "numpy.array_split", "numpy.asarray", "numpy.array"):
            return self.columns(a[1], c, seen)
        if op in ("sub", "elem", "cast"):
            return self.columns(a[0], c, seen)
        if op == "mut":
            r = [self.columns(k, c, seen) for k in (a[1], a[-1])]
        elif op == "mu" and t in self.it.mu:
            r = [self.columns(k, c, seen) for k in self.it.mu[t] if isinstance(k, T)]
        elif op == "phi":
            r = [self.columns(k, c, seen) for k in a[1:]]
        else:
            return None
        return False if False in r else None if None in r else True


def const_none(t):
    return t.op == "const" and t.args[0] is None


def kw(t, name):
    for k in t.args:
        if isinstance(k, T) and k.op == "kw" and k.args[0] == name:
            return k.args[1]
    return None


class Walk(object):
    def __init__(self, rep, nm, it, fi, evs):
        self.rep, self.nm, self.it, self.fi, self.evs = rep, nm, it, fi, evs
        self.target = T("sym", fi.all_params[2]) if len(fi.all_params) > 2 else None
        self.rows = Sums({T("sym", n) for n in fi.all_params[1:]}, it.mu)
        self.weights = Weights(it)
        self.ratio = set()
        self.index = None

    def of_rows(self, t):
        return self.rows.kind(t)[0] in "RSEG"

    def where(self, t):
        if self.index is None:
            self.index = {}
            for e in self.evs:
                if e.kind in ("call", "mcall"):
                    for k in e.data.get("terms") or ():
                        if isinstance(k, T):
                            self.index.setdefault(k, e)
                elif e.kind == "binop":
                    for k in (e.data["left"], e.data["right"]):
                        self.index.setdefault(k, e)
        for k in list(t.kids()):
            if self.of_rows(k) and k in self.index:
                return self.index[k]
        return next((self.index[k] for k in t.kids() if k in self.index), None)

    def add(self, rule, t, why, what):
        e = self.where(t)
        self.rep.add(rule, "%s %s" % (self.nm, what), e.where() if e is not None else self.fi.loc(), why % show(t, 4))

    def visit(self, t):
        op, a = t.op, t.args
        if op == "bin" and a[0] == "Div":
            x, y = a[1], a[2]
            if x.op == "call" and y.op == "call" and x.args[0] in ("numpy.mean", "meth.mean") and y.args[0] == x.args[0]:
                self.ratio |= {x, y}
            if self.rows.kind(y)[0] in "NM":
                self.add(MEAN, t, "%s is divided by the number of rows, to which rows of weight zero count", "number of rows")
        if op == "call":
            self.call(t)
        elif op == "apply":
            if any(self.of_rows(k) for k in a[1:]) and a[0].op in ("sym", "attr"):
                self.given(t, [k for k in a[1:] if isinstance(k, T)])
        elif op == "mu" and t in self.it.mu:
            self.loop(t)

    def given(self, t, args):
        flat = []
        for k in args:
            k = k.args[1] if k.op == "kw" else k
            flat += list(k.args) if k.op in ("tuple", "list") else [k]
        if any(isinstance(k, T) and self.weights.prop(k) and k.op != "const" for k in flat):
            self.rep.ok(GIVEN, self.nm)
        else:
            self.add(GIVEN, t, "%s gets the rows without their weights", "arguments")

    def total(self, t, w):
        """The parts a sum is made of."""
        if self.weights.prop(w):
            self.rep.ok(WEIGHTED, self.nm)
            return
        parts = [w]
        while any(k.op == "bin" and k.args[0] in ("Add", "Sub") for k in parts):
            parts = [x for k in parts for x in (k.args[1:] if k.op == "bin" and k.args[0] in ("Add", "Sub") else [k])]
        for k in parts:
            if self.weights.prop(k):
                self.rep.ok(WEIGHTED, self.nm)
            elif k.op == "bin" and k.args[0] == "Div" and k.args[2].op == "sub" and k.args[2].args[0].op == "call" and \
                    k.args[2].args[0].args[0] in COUNTS:
                self.add(WEIGHTED, t, "%s averages over the rows of a bin without their weights", "average within bins")
            else:
                self.add(WEIGHTED, t, "%s adds up rows without their weights", "sum of rows")

    def call(self, t):
        q, a = t.args[0], [k for k in t.args[1:] if isinstance(k, T) and k.op != "kw"]
        axis = kw(t, "axis")
        if axis is not None and axis.op == "const" and axis.args[0] in (1, -1):
            return
        if q in COUNTS and a and self.of_rows(a[0]):
            w = kw(t, "weights") or (a[1] if len(a) > 1 and q == "numpy.bincount" else None)
            if w is None:
                self.add(WEIGHTED, t, "%s counts rows without their weights", "count of rows")
            else:
                self.total(t, w)
        elif q in SUMS and a and self.of_rows(a[0]):
            self.total(t, a[0])
        elif q in DOTS and len(a) > 1 and self.of_rows(a[0]) and self.of_rows(a[1]):
            if self.weights.prop(a[0]) or self.weights.prop(a[1]):
                self.rep.ok(WEIGHTED, self.nm)
            else:
                self.add(WEIGHTED, t, "%s adds up rows without their weights", "sum of rows")
        elif q in AVERAGE and a and self.of_rows(a[0]):
            w = kw(t, "weights")
            if w is not None and self.weights.prop(w):
                self.rep.ok(WEIGHTED, self.nm)
            else:
                self.add(MEAN, t, "%s does not use the weights of the rows", "average of rows")
        elif q in MEANS and a and self.of_rows(a[0]):
            if t in self.ratio and self.weights.prop(a[0]):
                self.rep.ok(WEIGHTED, self.nm)
            else:
                self.add(MEAN, t, "%s depends on rows of weight zero", "mean of rows")
        elif q in EXTREMES and a and self.of_rows(a[0]) and self.target is not None:
            if any(k is self.target for k in walk(a[0], self.it.mu)):
                self.add(EXTREME, t, "%s of the target or of predictions depends on rows of weight zero", "extreme")
            else:
                self.rep.ok(EXTREME, self.nm)
        elif q.startswith("scipy.optimize.") and any(self.of_rows(k) for k in walk_args(t)):
            self.given(t, [k for k in t.args[1:] if isinstance(k, T)])

    def loop(self, t):
        """Rows added up in a loop over them."""
        init, back = self.it.mu[t]
        work, seen = [back], set()
        while work:
            b = work.pop()
            if not isinstance(b, T) or b in seen:
                continue
            seen.add(b)
            if b.op == "phi":
                work += b.args[1:]
            elif b.op == "upd" and b.args[0] is t:
                v = b.args[2]
                for x in (v.args[1:] if v.op == "phi" else [v]):
                    self.added(t, x, b.args[1])
            elif b.op == "upd":
                work.append(b.args[0])
            else:
                self.added(t, b, None)

    def added(self, t, v, idx):
        if v.op != "bin" or v.args[0] not in ("Add", "Sub"):
            return
        own = [k for k in v.args[1:] if k is t or k.op == "sub" and k.args[0] is t]
        rest = [k for k in v.args[1:] if k not in own]
        if len(own) == 1 and len(rest) == 1 and self.rows.kind(rest[0])[0] == "E":
            if self.weights.prop(rest[0]):
                self.rep.ok(WEIGHTED, self.nm)
            else:
                self.add(WEIGHTED, v, "%s adds up rows without their weights", "sum of rows")


def walk_args(t):
    for k in t.args[1:]:
        if isinstance(k, T):
            k = k.args[1] if k.op == "kw" else k
            for x in (k.args if k.op in ("tuple", "list") else (k,)):
                if isinstance(x, T):
                    yield x


def estimator(rep, p, cls):
    nm = world.short(cls)
    life = world.Life(p, cls, ctor_kwargs={"weight_column": K(COLUMN)})
    life.construct()
    if not life.has("fit"):
        return
    v, s, evs = life.run("fit")
    if s is None:
        rep.skipped(nm, "fit is not understood")
        return
    it = life.it
    fi = it.method(cls, "fit")
    w = Walk(rep, nm, it, fi, evs)
    seen, found = set(), set()
    for path, v in list(values(it, life.obj, life.st)) + list(plain(it, life.obj, life.st)):
        last = path.rstrip("[]").split(".")[-1]
        if last not in LEARNED and not (".smoother" in path):
            continue
        found.add(last)
        for t in sorted(walk(it.term(v, life.st), it.mu, seen), key=lambda x: -x.uid):
            w.visit(t)
    rep.counters["%s learned values" % nm] = len(found)
    rep.functions |= it.inlined


def plain(it, obj, st):
    for n, x in it.fields(obj.oid, st).items():
        yield "." + n, x


def run(p, rep, tier):
    rep.rule(WEIGHTED, "a sum or count over training rows that factors, scale or loss are made of is a sum of multiples of the rows' weights")
    rep.rule(MEAN, "no mean or median over rows without weights, and no division by the number of rows, takes part in what is learned")
    rep.rule(GIVEN, "a loss function of the user and a numerical minimisation get the weights together with the rows")
    rep.rule(EXTREME, "no extreme value of the target or of predictions takes part in what is learned")
    parallel(rep, p, world.estimators(p), estimator, world.short)
    rep.floor(WEIGHTED, 60)
