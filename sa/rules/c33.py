"""C33: what training learns does not depend on the order of the training rows."""
from .. import world
from ..extmodel import ELEMENTWISE, REDUCTIONS
from ..framework import parallel
from ..interp import Interp
from ..program import Module
from ..rows import MIX_METHODS, MIXING, Rows
from ..state import State
from ..terms import T, show, walk
from .c05 import locate
from .c06 import plain
from .c29 import Lengths, values

RULE = "depends-on-row-order"
# of rows in the order given, each of these gives something else when the rows come in another order
ORDERED = {"numpy.cumsum", "numpy.cumprod", "numpy.nancumsum", "numpy.nancumprod", "numpy.diff", "numpy.ediff1d", "numpy.roll",
           "numpy.gradient", "numpy.convolve", "numpy.correlate", "numpy.trapz", "numpy.maximum.accumulate",
           "numpy.minimum.accumulate", "numpy.add.accumulate", "numpy.logaddexp.accumulate", "itertools.accumulate",
           "itertools.islice", "builtins.next", "numpy.random.choice", "numpy.random.permutation", "random.sample",
           "random.choice", "scipy.signal.lfilter", "scipy.ndimage.gaussian_filter1d", "numpy.trim_zeros"}
ORDERED_METHODS = {"cumsum", "cumprod", "cummax", "cummin", "diff", "shift", "pct_change", "rolling", "ewm", "expanding", "interpolate",
                   "ffill", "bfill", "sample", "head", "tail", "first", "last", "cumcount", "nth", "choice", "permutation", "ngroup",
                   "item"}
SPLITS = ("sklearn.model_selection.", "sklearn.utils.resample", "sklearn.utils.shuffle")
SORTS = {"numpy.argsort", "meth.argsort", "numpy.lexsort", "numpy.argmax", "numpy.argmin", "numpy.nanargmax", "numpy.nanargmin",
         "meth.argmax", "meth.argmin", "meth.idxmax", "meth.idxmin", "numpy.argpartition"}
COUNTING = {"numpy.arange", "builtins.range", "numpy.linspace", "numpy.indices", "numpy.geomspace", "numpy.logspace"}
# the distinct values, in the order in which they appear
APPEARANCE = {"pandas.unique", "meth.unique", "meth.drop_duplicates", "pandas.factorize", "meth.factorize", "dict.fromkeys"}
ROWS = "RS"
SELFTEST = '''
import numpy as np
def good(X):
    y = X[:, 0]
    s = np.argsort(y)
    m = y > np.mean(y)
    t = y[s]
    return np.cumsum(t)[0] + t[0] + np.bincount(X[:, 1], weights=y).cumsum()[-1] + np.sum(y[m]) + np.sort(y)[len(y) // 2] + y[np.argmax(y)]
def first(X):
    return np.mean(X[:, 0]) + X[0, 0]
def half(X):
    return np.sum(X[: len(X) // 2, 0])
def running(X):
    return np.max(np.cumsum(X[:, 0]))
def recent(X):
    y = X[:, 0]
    return np.sum(y * np.arange(len(y)))
def found(X):
    y = X[:, 0]
    return y[np.where(y > 0)[0][0]]
def late(X):
    r = 0.0
    for v in X[:, 0]:
        r = 0.9 * r + v
    return r
def mixed(X):
    return np.sum(np.sort(X[:, 0]) * X[:, 1])
'''


class Order(Lengths):
    """Rows in the order given (R, S); statistics and sorted rows are constants."""

    def _kind(self, t):
        op, a = t.op, t.args
        if op == "sub" and self.sorting(a[1]) and self.kind(a[0])[0] in ROWS:
            return ("C", None)
        if op == "call" and a[0] in SORTS:
            return ("C", None)
        if op == "call" and a[0] in APPEARANCE and len(a) > 1 and self.kind(a[1])[0] in ROWS:
            return ("S", None)
        if op == "call" and a[0].startswith("meth.") and len(a) > 1 and self.kind(a[1])[0] == "G" and self.unsorted(a[1]):
            return ("S", None)
        if op == "call" and a[0] in ("numpy.split", "numpy.array_split") and len(a) > 1:
            return self.kind(a[1])
        if op in ("bin", "cmp"):
            kinds = [self.kind(k) for k in t.kids()]
            if {k[0] for k in kinds} & set("NM") and {k[0] for k in kinds} & set("RSE"):
                return self.combine(t, [k for k in kinds if k[0] not in "NM"])
        r = Lengths._kind(self, t)
        if op == "phi" and r[0] == "?":
            k = self.join(self.kind(a[1]), self.kind(a[2]))
            return k
        return r

    def unsorted(self, g):
        """Groups in the order in which their rows appear."""
        while g.op == "sub" or g.op == "attr":
            g = g.args[0]
        k = self.kw(g, "sort") if g.op == "call" and g.args[0] == "meth.groupby" else None
        return k is not None and k.op == "const" and k.args[0] is False

    def ranked(self, t, depth=6):
        """All rows, sorted."""
        if depth == 0:
            return False
        if t.op == "call" and t.args[0] in ("numpy.sort", "builtins.sorted") and len(t.args) > 1:
            return self.kind(t.args[1])[0] in ROWS
        if t.op == "sub" and t.args[1].op == "call" and t.args[1].args[0] in ("numpy.argsort", "meth.argsort", "numpy.lexsort"):
            return self.kind(t.args[0])[0] in ROWS
        if t.op in ("bin", "cmp", "un") or t.op == "call" and (t.args[0] in ELEMENTWISE or t.args[0] == "cast"):
            return any(self.ranked(k, depth - 1) for k in t.kids())
        return False

    def sorting(self, i):
        """Positions that put the rows in an order of their own."""
        while True:
            if i.op == "call" and i.args[0] in SORTS:
                return True
            if i.op == "call" and i.args[0] in ("cast", "numpy.asarray", "numpy.flip", "numpy.array"):
                i = i.args[1]
            elif i.op == "sub" or i.op == "tuple" and i.args or i.op == "phi":
                i = i.args[1] if i.op == "phi" else i.args[0]
            else:
                return False

    def position(self, t, depth=8):
        """The number of a row in the table given, or something computed from it."""
        if depth == 0:
            return False
        if t.op == "call" and t.args[0] in COUNTING:
            return any(self.kind(k)[0] in "N" for k in t.kids())
        if t.op in ("bin", "cmp", "un", "inv", "not") or t.op == "call" and (t.args[0] in ELEMENTWISE or t.args[0] == "cast"):
            return any(self.position(k, depth - 1) for k in t.kids())
        return False


class Walk(object):
    def __init__(self, it, source):
        self.it = it
        self.order = Order(source, it.mu)

    def rows(self, t):
        return self.order.kind(t)[0] in ROWS

    def judge(self, t):
        """None: nothing to decide; (what, message) or ("", "") for an operation over rows."""
        op, a = t.op, t.args
        if op == "sub" and self.rows(a[0]) and self.order.array(a[0]):
            return self.selected(t)
        if op in ("bin", "cmp"):
            if any(self.order.ranked(k) for k in t.kids()) and any(self.order.kind(k)[0] == "R" for k in t.kids()):
                return ("aligned", "sorted rows are put together with rows in the order given: %s" % show(t, 3)[:120])
            here = [k for k in t.kids() if self.order.position(k)]
            if here and any(self.rows(k) and k not in here for k in t.kids()):
                return ("position", "the position of a row in the table takes part in %s" % show(t, 3)[:120])
            return None
        if op == "call":
            return self.call(t)
        if op == "mu" and t in self.it.mu:
            return self.loop(t)
        return None

    def selected(self, t):
        b, i = t.args[0], t.args[1]
        first = i.args[0] if i.op == "tuple" and i.args else i
        if first.op != "call" and self.order.ranked(first) and self.order.kind(b)[0] == "R":
            return ("aligned", "rows in the order given are selected by sorted rows: %s" % show(t, 3)[:120])
        if self.order.full(first) or first.op == "ext" or first.op == "const" and not isinstance(first.args[0], int):
            return None
        if self.order.sorting(first):
            return ("", "")
        if first.op == "const" and type(first.args[0]) is int:
            if b.op in ("elem", "elemval", "over", "any", "cb"):
                return None
            return ("row", "the row at position %r of the table is picked out by %s" % (first.args[0], show(t, 3)[:120]))
        if first.op == "slice":
            if any(self.order.kind(k)[0] in "RSE?" for k in first.args):
                return None
            return ("part", "a part of the table, by position, is picked out by %s" % show(t, 3)[:120])
        if self.drawn(first):
            return ("part", "rows are drawn by their position in the table: %s" % show(t, 3)[:120])
        if self.order.position(first) and first.op != "call":
            return ("part", "rows are picked out by their position in the table: %s" % show(t, 3)[:120])
        if self.order.kind(first)[0] in "NM":
            return ("row", "a row is picked out by the number of rows: %s" % show(t, 3)[:120])
        return ("", "") if self.rows(first) else None

    def drawn(self, i):
        while i.op == "sub":
            i = i.args[0]
        return i.op == "call" and i.args[0].split(".")[-1] in ("permutation", "choice", "randint", "integers", "sample") and \
            any(self.order.kind(k.args[1] if k.op == "kw" else k)[0] == "N" for k in i.kids())

    def loop(self, t):
        """A value carried from row to row."""
        if t.args and isinstance(t.args[1], tuple) and t.args[1][0] == "f":
            return None
        init, back = self.it.mu[t]
        work, seen, r = [(back, ())], set(), None
        while work:
            b, conds = work.pop()
            if not isinstance(b, T) or b in seen or b is t:
                continue
            seen.add(b)
            if b.op == "phi":
                work += [(k, conds + (b.args[0],)) for k in b.args[1:]]
                continue
            if self.order.kind(b)[0] != "E":
                continue
            inside = any(k is t for k in walk(b))
            if not inside and not any(t is k for c in conds for k in walk(c)):
                return ("last", "the value of the last row is kept by a loop over the rows: %s" % show(b, 3)[:120])
            if b.op == "bin" and b.args[0] == "Add":
                for x, e in ((b.args[1], b.args[2]), (b.args[2], b.args[1])):
                    if x.op == "bin" and x.args[0] in ("Mult", "Div") and t in x.args[1:] and \
                            self.order.kind(e)[0] == "E" and not any(k is t for k in walk(e)):
                        return ("order", "later rows count more in %s" % show(b, 3)[:120])
                r = ("", "")
        return r

    def call(self, t):
        q = t.args[0]
        pos = [k for k in t.args[1:] if isinstance(k, T) and k.op != "kw"]
        if q.startswith(SPLITS):
            if any(self.rows(k) for k in pos):
                return ("part", "rows are drawn by their position in the table by %s" % show(t, 2)[:120])
            return None
        if not pos:
            return None
        hit = self.rows(pos[0]) or self.order.kind(pos[0])[0] == "G"
        if not hit:
            return None
        if q == "numpy.bincount":
            w = self.order.kw(t, "weights") or (pos[1] if len(pos) > 1 else None)
            if w is not None and self.order.ranked(w):
                return ("aligned", "sorted rows are put together with rows in the order given: %s" % show(t, 3)[:120])
        if q in ("numpy.split", "numpy.array_split") and len(pos) > 1 and pos[1].op == "const" and self.order.kind(pos[0])[0] in ROWS:
            return ("part", "the table is divided by position by %s" % show(t, 3)[:120])
        axis = self.order.kw(t, "axis")
        if axis is None and len(pos) > 1 and q in ("numpy.cumsum", "numpy.diff"):
            axis = pos[1] if q == "numpy.cumsum" else None
        if axis is not None and axis.op == "const" and axis.args[0] in (1, -1, "columns"):
            return None
        name = q.split(".")[-1]
        if q in ORDERED or q.startswith("meth.") and name in ORDERED_METHODS:
            return ("order", "%s depends on the order of the rows" % show(t, 3)[:120])
        if q in REDUCTIONS or q in MIXING or q in SORTS or q.startswith("meth.") and name in MIX_METHODS:
            return ("", "")
        return None


def check(rep, p, cls):
    for m in world.LEARN:
        life = world.Life(p, cls)
        if not life.has(m):
            continue
        life.construct()
        fi = life.it.method(cls, m)
        v, s, evs = life.run(m)
        nm = "%s.%s" % (world.short(cls), m)
        rep.functions |= life.it.inlined
        if s is None:
            rep.skipped(nm, "always raises")
            continue
        it = life.it
        w = Walk(it, {T("sym", n) for n in fi.all_params[1:] if n in ("X", "y", "X_orig", "weights", "sample_weight", "fit_params")})
        seen, told = set(), set()
        held = [it.term(x, life.st) for path, x in list(values(it, life.obj, life.st)) + list(plain(it, life.obj, life.st))]
        for e in evs:
            # what other estimators are trained with
            if e.kind in ("call", "mcall") and (e.data.get("q") or e.data.get("name") or "").split(".")[-1] in world.LEARN:
                got = list(e.data.get("terms") or ()) + list((e.data.get("kterms") or {}).values())
                held += got
                if any(w.order.ranked(k) for k in got) and any(w.rows(k) for k in got):
                    rep.add(RULE, nm + ": aligned", e.loc(), "sorted rows are put together with rows in the order given")
        for x in held:
            for t in sorted(walk(x, it.mu, seen), key=lambda x: x.uid):
                r = w.judge(t)
                if r is None:
                    continue
                if not r[0]:
                    rep.ok(RULE, nm)
                    continue
                where, call = locate(fi, evs, t)
                key = "%s: %s" % (nm, r[0])
                if (key, where) not in told:
                    told.add((key, where))
                    rep.add(RULE, key, where, r[1], call)


def selftest(p):
    m = Module("selftest", "selftest.py", "selftest.py", SELFTEST, p)
    for n, fi in m.functions.items():
        it = Interp(p)
        v, st = it.call_entry(fi, State(it.root), None)
        w = Walk(it, {T("sym", "X")})
        got = {r[0] for t in walk(it.term(v, st), it.mu, set()) for r in [w.judge(t)] if r}
        if (got == {""}) != (n == "good"):
            raise AssertionError("self test %s failed: %s" % (n, got))


def run(p, rep, tier):
    rep.rule(RULE, "in the value graph of everything a trained object holds, no operation over training rows in the order given "
                   "depends on that order: rows are only added up, counted, sorted or selected by their values")
    classes = world.estimators(p) + world.transformers(p) + world.chains(p)
    rep.count("classes", len(classes))
    parallel(rep, p, classes, check, world.short)
    rep.floor(RULE, 60)
    selftest(p)
