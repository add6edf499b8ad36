"""Conditions of the value graph as decision diagrams over comparisons."""
from .bits import Dd
from .terms import T


class NoForm(Exception):
    """Not a condition over the known atoms."""


def is_num(t):
    return t.op == "const" and isinstance(t.args[0], (int, float)) and not isinstance(t.args[0], bool)


def offset(t):
    """(x, c) with t = x + c."""
    if t.op == "bin" and t.args[0] in ("Add", "Sub"):
        op, a, b = t.args
        if is_num(b):
            x, c = offset(a)
            return x, c + (b.args[0] if op == "Add" else -b.args[0])
        if op == "Add" and is_num(a):
            x, c = offset(b)
            return x, c + a.args[0]
    return t, 0


def negated(t):
    """x if t = -x."""
    if t.op == "un" and t.args[0] == "neg":
        return t.args[1]
    if t.op == "bin" and t.args[0] == "Mult":
        for x, y in ((t.args[1], t.args[2]), (t.args[2], t.args[1])):
            if is_num(x) and x.args[0] == -1:
                return y
    if t.op == "bin" and t.args[0] == "Sub" and is_num(t.args[1]) and t.args[1].args[0] == 0:
        return t.args[2]
    return None


def absolute(t):
    if t.op == "call" and t.args[0] in ("numpy.abs", "numpy.absolute", "numpy.fabs", "builtins.abs", "math.fabs"):
        return t.args[1]
    if t.op == "un" and t.args[0] in ("abs", "numpy.abs"):
        return t.args[1]
    return None


class Conditions(object):
    """``integers``: terms known to be integers counting up, for which a < b is a + 1 <= b."""

    def __init__(self, integers=()):
        self.dd = Dd()
        self.names = []
        self.keys = {}
        self.integers = set(integers)

    def atom(self, key):
        if key not in self.keys:
            self.keys[key] = len(self.names)
            self.names.append(key)
        return self.dd.var(self.keys[key])

    def form(self, t):
        op, a, dd = t.op, t.args, self.dd
        if op == "const":
            return bool(a[0])
        if op == "not":
            return dd.neg(self.form(a[0]))
        if op in ("and", "or"):
            r = op == "and"
            for k in a:
                r = (dd.conj if op == "and" else dd.disj)(r, self.form(k))
            return r
        if op == "phi":
            return dd.ite(self.form(a[0]), self.form(a[1]), self.form(a[2]))
        if op == "truth":
            return self.form(a[0]) if a[0].op in ("const", "not", "and", "or", "phi", "cmp") else self.atom(("truth", a[0]))
        if op == "call" and a[0] in ("builtins.bool",):
            return self.form(a[1])
        if op == "cmp":
            return self.compare(a[0], a[1], a[2])
        return self.atom(("truth", t))

    def compare(self, op, x, y):
        dd = self.dd
        if op == ">":
            return self.compare("<", y, x)
        if op == ">=":
            return self.compare("<=", y, x)
        if op == "!=":
            return dd.neg(self.compare("==", x, y))
        if op in ("<", "<="):
            v = absolute(x)
            if v is not None:
                return dd.conj(self.compare(op, v, y), self.compare(op, T("un", "neg", y), v))
            v = absolute(y)
            if v is not None:
                return dd.neg(self.compare("<=" if op == "<" else "<", y, x))
            nx, ny = negated(x), negated(y)
            if nx is not None and ny is not None:
                return self.compare(op, ny, nx)
            if nx is not None:
                x = T("un", "neg", nx)
            if ny is not None:
                y = T("un", "neg", ny)
            (x, c), (y, d) = offset(x), offset(y)
            if is_num(x):
                x, c = T("const", 0), c + x.args[0]
            if is_num(y):
                y, d = T("const", 0), d + y.args[0]
            c, d = c - d, 0
            if x in self.integers or y in self.integers:
                # x + c (<|<=) y ; integers: x + c < y is x + c + 1 <= y
                if op == "<":
                    c += 1
                if x in self.integers:  # x + c <= y  iff  not y + 1 - c <= x
                    return dd.neg(self.atom(("<=", y, 1 - c, x)))
                return self.atom(("<=", x, c, y))
            if op == "<":  # x + c < y  iff  not y - c <= x
                return dd.neg(self.atom(("<=", y, -c, x)))
            return self.atom(("<=", x, c, y))
        if op != "==":
            return self.atom((op, x, y))
        return self.atom((op,) + tuple(sorted((x, y), key=lambda t: t.uid)))

    def differ(self, a, b):
        """The atoms of an assignment on which two forms differ, or None."""
        m = self.dd.one(self.dd.xor(a, b))
        return None if m is None else [(self.names[k], v) for k, v in sorted(m.items())]
