"""The value of one row of a table, by the kind of its cells.

A row is described by one kind per column: an ordinary number, a negative
number, not a number, or an infinity.  A term of the value graph is evaluated
for such a row; conditions that the kinds do not decide are decided both ways.
"""
import math

from .pointwise import ISFINITE, ISINF, ISNAN, SAME, args, is_mask, kws
from .terms import T

ORD, NEG, NAN, PINF, NINF = "ordinary", "negative", "missing", "infinite", "minus infinite"
KINDS = (ORD, NEG, NAN, PINF, NINF)


class Fork(Exception):
    def __init__(self, atom):
        self.atom = atom


class Opaque(object):
    """A value that the kinds do not determine."""

    def __init__(self, term):
        self.term = term


class Row(object):
    def __init__(self, items):
        self.items = tuple(items)

    def map(self, fn):
        return Row([fn(x) for x in self.items])


class RowKinds(object):
    def __init__(self, pw, data, kinds, whole=(), limit=4000):
        """``whole``: terms that are not taken apart."""
        self.whole = set(whole)
        self.pw, self.data, self.kinds, self.limit = pw, data, kinds, limit
        self.env, self.memo = {}, {}

    def cases(self, t):
        """[(decisions, value)]"""
        out, todo, n = [], [{}], 0
        while todo:
            env = todo.pop()
            n += 1
            if n > self.limit:
                raise OverflowError("too many cases")
            self.env, self.memo = env, {}
            try:
                out.append((env, self.value(t)))
            except Fork as f:
                for v in (True, False):
                    e = dict(env)
                    e[f.atom] = v
                    todo.append(e)
        return out

    # ------------------------------------------------------------- conditions
    def decide(self, atom):
        if atom in self.env:
            return self.env[atom]
        raise Fork(atom)

    def truth(self, t):
        v = self.value(t)
        if isinstance(v, bool):
            return v
        if isinstance(v, Row) and len(v.items) == 1 and isinstance(v.items[0], bool):
            return v.items[0]
        return self.decide(v.term if isinstance(v, Opaque) else t)

    # ----------------------------------------------------------------- values
    def value(self, t):
        if t in self.memo:
            return self.memo[t]
        v = self._value(t)
        self.memo[t] = v
        return v

    def _value(self, t):
        op, a = t.op, t.args
        if t is self.data:
            return Row(self.kinds)
        if t in self.whole:
            return Opaque(t)
        if op == "const":
            return a[0] if isinstance(a[0], bool) else NAN if isinstance(a[0], float) and math.isnan(a[0]) else Opaque(t)
        if op == "ext":
            return NAN if a[0] in ("numpy.nan", "math.nan", "numpy.NaN") else Opaque(t)
        if op == "phi":
            return self.value(a[1] if self.truth(a[0]) else a[2])
        if op == "not" or op == "un" and a[0] in ("invert", "not"):
            return self._map(lambda x: not x, self.value(a[-1]), t)
        if op == "call" and a[0] == "numpy.logical_not":
            return self._map(lambda x: not x, self.value(a[1]), t)
        if op == "truth":
            return self.value(a[0])
        if op in ("and", "or"):
            return self._junction(op == "and", a, t)
        if op == "bin" and a[0] in ("BitAnd", "BitOr"):
            return self._junction(a[0] == "BitAnd", a[1:], t)
        if op == "call" and a[0] in ("numpy.logical_and", "numpy.logical_or"):
            return self._junction(a[0] == "numpy.logical_and", args(t), t)
        if op == "cmp":
            return self._compare(t)
        if op == "filled":
            return self.value(a[0])
        if op == "upd":
            if is_mask(a[1]):
                m = self.value(a[1])
                if isinstance(m, Row) and len(m.items) > 1:
                    b = self.value(a[0])
                    if isinstance(b, Row) and len(b.items) == len(m.items) and all(isinstance(x, bool) for x in m.items):
                        x = self.value(a[2])
                        return Row([x if c else y for c, y in zip(m.items, b.items)])
                    return Opaque(t)
                return self.value(a[2] if self.truth(a[1]) else a[0])
            return Opaque(t)
        if op == "sub":
            b = self.value(a[0])
            if a[0] is self.data:
                return b
            if is_mask(a[1]):
                return b
            if isinstance(b, Row) and (a[1].op == "slice" or a[1].op == "tuple" and a[1].args and a[1].args[0].op == "slice"):
                return b
            return Opaque(t)
        if op == "attr":
            b = self.value(a[0])
            if a[1] in ("values", "loc", "iloc") and isinstance(b, Row):
                return b
            return Opaque(t)
        if op == "call":
            return self._call(t)
        if op == "bin":
            x, y = self.value(a[1]), self.value(a[2])
            if NAN in (x, y):
                return NAN
        return Opaque(t)

    def _map(self, fn, v, t):
        if isinstance(v, bool):
            return fn(v)
        if isinstance(v, Row) and all(isinstance(x, bool) for x in v.items):
            return v.map(fn)
        if isinstance(v, Opaque):
            return fn(self.decide(v.term))
        return Opaque(t)

    def _junction(self, conj, ks, t):
        vs = []
        for k in ks:
            v = self.value(k)
            if isinstance(v, bool) and v != conj:
                return v
            vs.append((k, v))
        rows = [v for _, v in vs if isinstance(v, Row)]
        if rows:
            n = max(len(r.items) for r in rows)
            out = []
            for i in range(n):
                xs = [v.items[i if len(v.items) > 1 else 0] if isinstance(v, Row) else v for _, v in vs]
                if not all(isinstance(x, bool) for x in xs):
                    return Opaque(t)
                out.append(all(xs) if conj else any(xs))
            return Row(out)
        for k, v in vs:
            b = v if isinstance(v, bool) else self.decide(v.term if isinstance(v, Opaque) else k)
            if b != conj:
                return b
        return conj

    @staticmethod
    def _number(t):
        return t.op == "const" and isinstance(t.args[0], (int, float)) and not isinstance(t.args[0], bool)

    def _compare(self, t):
        c, x, y = t.args
        if c in ("<", "<=", "==", "!="):
            # dimensions of a table with rows
            for p, q, left in ((x, y, True), (y, x, False)):
                n = self._dims(p)
                if n is not None and self._number(q):
                    l, r = (n, q.args[0]) if left else (q.args[0], n)
                    return {"<": l < r, "<=": l <= r, "==": l == r, "!=": l != r}[c]
            vx, vy = self.value(x), self.value(y)
            for v, o, left in ((vx, y, True), (vy, x, False)):
                if isinstance(v, Row) or v in KINDS:
                    fn = self._against(c, o, left, t)
                    if fn is None:
                        return Opaque(t)
                    return v.map(fn) if isinstance(v, Row) else fn(v)
        return Opaque(t)

    def _dims(self, t):
        """2 for the number of dimensions of picked columns."""
        x = None
        if t.op == "len" and t.args[0].op == "attr" and t.args[0].args[1] == "shape":
            x = t.args[0].args[0]
        elif t.op == "call" and t.args[0] == "builtins.len" and t.args[1].op == "attr" and t.args[1].args[1] == "shape":
            x = t.args[1].args[0]
        elif t.op == "attr" and t.args[1] == "ndim":
            x = t.args[0]
        if x is None:
            return None
        return 2 if isinstance(self.value(x), Row) else None

    def _against(self, c, o, left, t):
        zero = self._number(o) and o.args[0] == 0

        def fn(k):
            if k == NAN:
                return c == "!="
            if c in ("==", "!="):
                if k == ORD or not zero:
                    return self.decide(T("kind", k, t))
                return c == "!="
            if k in (PINF, NINF):
                return (k == NINF) == left
            if zero and k == NEG:
                return left
            if zero and k == ORD and (c == "<") == left:
                return c == "<=" if not left else False
            return self.decide(T("kind", k, t))
        return fn

    def _call(self, t):
        q, xs, kw = t.args[0], args(t), kws(t)
        if q in ISFINITE + ISNAN + ISINF and xs:
            v = self.value(xs[0])

            def fn(k):
                if q in ISFINITE:
                    return k in (ORD, NEG)
                return k == NAN if q in ISNAN else k in (PINF, NINF)
            if isinstance(v, Row) and all(x in KINDS for x in v.items):
                return v.map(fn)
            if isinstance(v, str):
                return fn(v)
            if isinstance(v, Opaque):
                if self.pw.finite(v.term) is None and v.term.op == "const":
                    return q in ISFINITE
                fin = self.decide(T("call", ISFINITE[0], v.term))
                if q in ISFINITE or fin:
                    return fin == (q in ISFINITE)
                nan = self.decide(T("call", ISNAN[0], v.term))
                return nan if q in ISNAN else not nan
        if q in ("numpy.all", "numpy.any", "numpy.min", "numpy.max") and xs:
            v = self.value(xs[0])
            ax = kw.get("axis", xs[1] if len(xs) > 1 else None)
            if q in ("numpy.all", "numpy.any"):
                want = q == "numpy.all"
                if ax is not None and ax.op == "const" and ax.args[0] in (1, -1):
                    if isinstance(v, Row) and all(isinstance(x, bool) for x in v.items):
                        return all(v.items) if want else any(v.items)
                if ax is None and isinstance(v, Row) and all(isinstance(x, bool) for x in v.items):
                    v = all(v.items) if want else any(v.items)
                if ax is None and isinstance(v, bool):
                    # over all rows of the table, of which this is one
                    return v if v != want else self.decide(t)
        if q == "numpy.where" and len(xs) == 3:
            return self.value(xs[1] if self.truth(xs[0]) else xs[2])
        if q in ("numpy.full", "numpy.full_like") and len(xs) > 1:
            return self.value(xs[1])
        if q in SAME and xs:
            return self.value(xs[0])
        return Opaque(t)
