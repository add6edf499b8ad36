"""What can be said about one entry of an array in the value graph: is it finite, and between which bounds.

A masked assignment, a choice and ``numpy.where`` are all the same thing for
one entry: a case distinction.  The conditions of the cases met on the way to
a subterm are kept (``Env``) and used there.
"""
import math

from .terms import T, walk

INF = float("inf")
ISFINITE = ("numpy.isfinite", "math.isfinite")
ISNAN = ("numpy.isnan", "pandas.isnull", "pandas.isna", "math.isnan")
ISINF = ("numpy.isinf", "math.isinf")
SAME = ("cast", "numpy.asarray", "numpy.array", "numpy.atleast_1d", "numpy.ravel", "numpy.squeeze", "numpy.copy", "builtins.float", "numpy.float64",
        "numpy.ascontiguousarray", "numpy.repeat", "meth.copy", "meth.ravel", "meth.flatten", "meth.to_numpy", "meth.astype", "meth.squeeze",
        "numpy.asfarray", "pandas.Series", "numpy.concatenate", "meth.reshape", "numpy.reshape", "numpy.broadcast_to", "meth.view")
EXP = ("numpy.exp", "math.exp")


def args(t):
    return [a for a in t.args[1:] if not (isinstance(a, T) and a.op == "kw")]


def kws(t):
    return {a.args[0]: a.args[1] for a in t.args[1:] if isinstance(a, T) and a.op == "kw"}


def is_mask(t):
    """A boolean array (or scalar) rather than a position or a key."""
    if t.op in ("cmp", "and", "or", "not", "truth", "isinstance"):
        return True
    if t.op == "call":
        return t.args[0] in ISFINITE + ISNAN + ISINF + ("numpy.logical_not", "numpy.logical_and", "numpy.logical_or", "numpy.all", "numpy.any",
                                                        "numpy.isclose", "numpy.isin", "numpy.in1d")
    if t.op == "phi":
        return is_mask(t.args[1]) and is_mask(t.args[2])
    if t.op == "bin" and t.args[0] in ("BitAnd", "BitOr", "BitXor"):
        return is_mask(t.args[1]) or is_mask(t.args[2])
    if t.op == "un" and t.args[0] in ("invert", "not"):
        return True
    if t.op == "upd":
        return is_mask(t.args[0])
    if t.op == "sub":
        return is_mask(t.args[0])
    return t.op == "const" and isinstance(t.args[0], bool)


class Env(object):
    """What is known of the entry: truth of conditions."""

    def __init__(self, facts=None):
        self.facts = facts or {}

    def get(self, t):
        return self.facts.get(t)

    def plus(self, t, val):
        """None if it contradicts what is known."""
        out = dict(self.facts)
        return Env(out) if self._put(out, t, val) else None

    def _put(self, out, t, val):
        if t.op == "const":
            return bool(t.args[0]) == val
        if t.op == "not" or t.op == "un" and t.args[0] in ("invert", "not"):
            return self._put(out, t.args[-1], not val)
        if t.op == "call" and t.args[0] == "numpy.logical_not":
            return self._put(out, t.args[1], not val)
        if t.op == "truth":
            return self._put(out, t.args[0], val)
        if t.op in ("and", "or") or t.op == "bin" and t.args[0] in ("BitAnd", "BitOr") or \
                t.op == "call" and t.args[0] in ("numpy.logical_and", "numpy.logical_or"):
            conj = t.op == "and" or t.args[0] in ("BitAnd", "numpy.logical_and")
            ks = t.args if t.op in ("and", "or") else t.args[1:]
            if conj == val:
                return all(self._put(out, k, val) for k in ks if isinstance(k, T))
        if out.get(t, val) != val:
            return False
        out[t] = val
        return True


class Pointwise(object):
    def __init__(self, mu, new, trust=lambda t: False):
        """``mu``: loop table; ``new``: symbols of the data given to the call; ``trust``: further terms taken as finite."""
        self.mu, self.new, self.trust = mu, set(new), trust
        self.dep = {}
        self.open = {}
        self.memo = {}

    # ------------------------------------------------------------ dependence
    def depends(self, t):
        r = self.dep.get(t)
        if r is None:
            r = any(k in self.new for k in walk(t, self.mu))
            self.dep[t] = r
        return r

    # --------------------------------------------------------------- columns
    def column(self, t, key):
        """The column of a frame that was built up column by column."""
        if t.op == "upd":
            if t.args[1] is key:
                return t.args[2]
            return self.column(t.args[0], key)
        if t.op == "phi":
            a, b = self.column(t.args[1], key), self.column(t.args[2], key)
            return a if a is b else T("phi", t.args[0], a, b)
        if t.op == "call" and t.args[0] == "pandas.DataFrame" and len(args(t)) == 1 and args(t)[0].op == "dict":
            d = args(t)[0].args
            for k, v in zip(d[::2], d[1::2]):
                if k is key:
                    return v
        if t.op == "dict":
            for k, v in zip(t.args[::2], t.args[1::2]):
                if k is key:
                    return v
        return T("sub", t, key)

    def loop(self, t):
        """(first value, next value) of a loop variable or of a column of one."""
        if t.op == "mu" and t in self.mu:
            return self.mu[t]
        if t.op == "sub" and t.args[0].op == "mu" and t.args[0] in self.mu and t.args[1].op == "const" and isinstance(t.args[1].args[0], str):
            a, b = self.mu[t.args[0]]
            return self.column(a, t.args[1]), self.column(b, t.args[1])
        return None

    # ---------------------------------------------------------------- finite
    def finite(self, t, env=None):
        """None if the entry is finite, otherwise the subterm that need not be."""
        env = env or Env()
        f = env.facts
        if any(f.get(T("call", q, t)) for q in ISFINITE):
            return None
        if any(f.get(T("call", q, t)) is False for q in ISNAN) and any(f.get(T("call", q, t)) is False for q in ISINF):
            return None
        op, a = t.op, t.args
        if op == "const":
            v = a[0]
            return None if isinstance(v, (bool, int)) or isinstance(v, float) and math.isfinite(v) else t
        if op in ("cmp", "not", "and", "or", "truth", "isinstance"):
            return None
        if t in self.open:
            return None
        if self.trust(t):
            return None
        if op == "phi":
            return self._cases(a[0], a[1], a[2], env)
        if op == "upd" and is_mask(a[1]):
            return self._cases(a[1], self.picked(a[2], a[1]), a[0], env)
        if op == "upd":
            return self.finite(a[0], env) or self.finite(a[2], env)
        lp = self.loop(t)
        if lp is not None:
            self.open[t] = True
            try:
                return self.finite(lp[0]) or self.finite(lp[1])
            finally:
                del self.open[t]
        if op == "filled":
            return self.finite(a[0], env)
        if not self.depends(t) and op not in ("ext",):
            return None
        if op == "bin" and a[0] in ("Add", "Sub", "Mult"):
            return self.finite(a[1], env) or self.finite(a[2], env)
        if op == "bin" and a[0] == "Div":
            lo, hi = self.bounds(a[2], env)
            if not (lo > 0 or hi < 0):
                return t
            return self.finite(a[1], env) or self.finite(a[2], env)
        if op == "bin" and a[0] == "Pow" and a[2].op == "const" and isinstance(a[2].args[0], int) and a[2].args[0] >= 0:
            return self.finite(a[1], env)
        if op == "un":
            return self.finite(a[1], env)
        if op == "call":
            q, xs = a[0], args(t)
            if q == "numpy.nan_to_num":
                k = kws(t)
                return next((r for r in (self.finite(v, env) for n, v in k.items() if n in ("nan", "posinf", "neginf")) if r is not None), None)
            if q in SAME and xs:
                return self.finite(xs[0], env)
            if q in EXP or q in ("numpy.abs", "numpy.sign", "numpy.floor", "numpy.ceil", "numpy.rint", "numpy.round", "builtins.abs", "numpy.tanh",
                                 "numpy.square", "scipy.special.expit"):
                return self.finite(xs[0], env)
            if q == "numpy.where" and len(xs) == 3:
                return self._cases(xs[0], xs[1], xs[2], env)
            if q in ("numpy.maximum", "numpy.minimum", "numpy.fmax", "numpy.fmin", "numpy.clip") and len(xs) >= 2:
                return next((r for r in (self.finite(x, env) for x in xs) if r is not None), None)
            if q in ("numpy.zeros", "numpy.ones", "numpy.zeros_like", "numpy.ones_like", "builtins.len"):
                return None
            if q in ("numpy.full", "numpy.full_like") and len(xs) == 2:
                return self.finite(xs[1], env)
            if q in ("numpy.isfinite", "numpy.isnan"):
                return None
        if op == "attr" and a[1] in ("values", "T"):
            return self.finite(a[0], env)
        if op == "attr" and a[1] in ("shape", "size"):
            return None
        if op == "sub" and self._selection(a[1]):
            if a[0].op in ("upd", "phi", "call", "dict") and a[1].op == "const":
                c = self.column(a[0], a[1])
                if c is not t:
                    return self.finite(c, env)
            if a[0] not in self.new:
                return self.finite(a[0], env)
        if op == "len":
            return None
        if op in ("tuple", "list"):
            return next((r for r in (self.finite(x, env) for x in a) if r is not None), None)
        return t

    @staticmethod
    def _selection(i):
        return is_mask(i) or i.op in ("slice", "const", "tuple")

    def _cases(self, c, a, b, env):
        for val, x in ((True, a), (False, b)):
            e = env.plus(c, val)
            if e is None or env.get(c) == (not val):
                continue
            r = self.finite(x, e)
            if r is not None:
                return r
        return None

    @staticmethod
    def picked(v, mask):
        """The value assigned under a mask, seen from one entry: ``x[mask]`` is that entry's x."""
        if v.op == "sub" and v.args[1] is mask:
            return v.args[0]
        return v

    # ---------------------------------------------------------------- bounds
    def bounds(self, t, env=None):
        """(lowest, highest) possible value of an entry that is a number; open ends are not distinguished."""
        env = env or Env()
        r = self._bounds(t, env)
        for c, val in env.facts.items():
            if c.op != "cmp" or c.args[0] not in ("<", "<="):
                continue
            x, y = c.args[1], c.args[2]
            if not val:  # not x < y, for numbers: y <= x
                x, y = y, x
            if x is t and y.op == "const" and isinstance(y.args[0], (int, float)):
                r = (r[0], min(r[1], y.args[0]))
            if y is t and x.op == "const" and isinstance(x.args[0], (int, float)):
                r = (max(r[0], x.args[0]), r[1])
        return r

    def _bounds(self, t, env):
        op, a = t.op, t.args
        if op == "const" and isinstance(a[0], (int, float)) and not (isinstance(a[0], float) and math.isnan(a[0])):
            return (a[0], a[0])
        if op in ("cmp", "not", "and", "or", "truth", "isinstance"):
            return (0, 1)
        if op == "phi":
            return self._hull(a[0], a[1], a[2], env)
        if op == "upd" and is_mask(a[1]):
            return self._hull(a[1], self.picked(a[2], a[1]), a[0], env)
        if op == "upd":
            x, y = self.bounds(a[0], env), self.bounds(a[2], env)
            return (min(x[0], y[0]), max(x[1], y[1]))
        if op == "filled":
            return self.bounds(a[0], env)
        if op == "bin":
            x, y = self.bounds(a[1], env), self.bounds(a[2], env)
            if a[0] == "Add":
                return (x[0] + y[0], x[1] + y[1])
            if a[0] == "Sub":
                return (x[0] - y[1], x[1] - y[0])
            if a[0] == "Mult":
                if a[1] is a[2]:
                    lo = 0 if x[0] <= 0 <= x[1] else min(x[0] ** 2, x[1] ** 2)
                    return (lo, max(_mul(x[0], x[0]), _mul(x[1], x[1])))
                ps = [_mul(p, q) for p in x for q in y]
                return (min(ps), max(ps))
            if a[0] == "Div" and (y[0] > 0 or y[1] < 0):
                ps = [_div(p, q) for p in x for q in y]
                return (min(ps), max(ps))
            if a[0] == "Div" and y[0] >= 0 and x[0] >= 0:
                return (0 if y[1] == INF else _div(x[0], y[1]), INF)
            if a[0] == "Pow" and a[2].op == "const" and isinstance(a[2].args[0], int) and a[2].args[0] % 2 == 0:
                return (0, INF)
        if op == "un" and a[0] == "neg":
            x = self.bounds(a[1], env)
            return (-x[1], -x[0])
        if op == "call":
            q, xs = a[0], args(t)
            if q in EXP:
                x = self.bounds(xs[0], env)
                return (math.exp(x[0]) if x[0] > -700 else 0, math.exp(x[1]) if x[1] < 700 else INF)
            if q == "scipy.special.expit":
                return (0, 1)
            if q in ("numpy.abs", "builtins.abs", "numpy.square", "numpy.sqrt", "math.sqrt"):
                return (0, INF)
            if q == "numpy.where" and len(xs) == 3:
                return self._hull(xs[0], xs[1], xs[2], env)
            if q in ("numpy.maximum", "numpy.fmax", "builtins.max") and len(xs) == 2:
                x, y = self.bounds(xs[0], env), self.bounds(xs[1], env)
                return (max(x[0], y[0]), max(x[1], y[1]))
            if q in ("numpy.minimum", "numpy.fmin", "builtins.min") and len(xs) == 2:
                x, y = self.bounds(xs[0], env), self.bounds(xs[1], env)
                return (min(x[0], y[0]), min(x[1], y[1]))
            if q == "numpy.clip":
                ks = kws(t)
                lo = xs[1] if len(xs) > 1 else ks.get("a_min", ks.get("min"))
                hi = xs[2] if len(xs) > 2 else ks.get("a_max", ks.get("max"))
                x = self.bounds(xs[0], env)
                l = self.bounds(lo, env) if lo is not None and not (lo.op == "const" and lo.args[0] is None) else (-INF, -INF)
                h = self.bounds(hi, env) if hi is not None and not (hi.op == "const" and hi.args[0] is None) else (INF, INF)
                return (min(max(x[0], l[0]), h[0]), max(min(x[1], h[1]), l[1]))
            if q in SAME and xs:
                return self.bounds(xs[0], env)
            if q in ("numpy.zeros", "numpy.zeros_like"):
                return (0, 0)
            if q in ("numpy.ones", "numpy.ones_like"):
                return (1, 1)
            if q in ("numpy.full", "numpy.full_like") and len(xs) == 2:
                return self.bounds(xs[1], env)
        if op == "attr" and a[1] in ("values", "T"):
            return self.bounds(a[0], env)
        if op == "sub" and (is_mask(a[1]) or a[1].op == "slice"):
            return self.bounds(a[0], env)
        return (-INF, INF)

    def _hull(self, c, a, b, env):
        out = None
        for val, x in ((True, a), (False, b)):
            e = env.plus(c, val)
            if e is None or env.get(c) == (not val):
                continue
            r = self.bounds(x, e)
            out = r if out is None else (min(out[0], r[0]), max(out[1], r[1]))
        return out or (-INF, INF)


def _mul(p, q):
    return 0 if p == 0 or q == 0 else p * q


def _div(p, q):
    return 0 if p == 0 or abs(q) == INF else p / q


def same(a, b, mu, assumed=None):
    """Equal up to the names of loops."""
    assumed = set() if assumed is None else assumed
    if a is b:
        return True
    if not isinstance(a, T) or not isinstance(b, T):
        return not isinstance(a, T) and not isinstance(b, T) and a == b
    if (a, b) in assumed:
        return True
    if a.op != b.op:
        return False
    assumed.add((a, b))
    if a.op == "mu":
        if a not in mu or b not in mu:
            return False
        return all(same(x, y, mu, assumed) for x, y in zip(mu[a], mu[b]))
    if a.op == "any":
        return True
    return len(a.args) == len(b.args) and all(same(x, y, mu, assumed) for x, y in zip(a.args, b.args))
