"""Evaluation of conditions over classes of array elements.

Given that at least one element of an array belongs to a class (negative, NaN,
...), a condition about the array may already be settled: all(P) is false when
P is false for the class, any(P) is true when P is true for it.
"""
import math

from .terms import T, walk

UNKNOWN = None
ELEMENTWISE = {
    "numpy.isnan": math.isnan, "numpy.isfinite": math.isfinite, "numpy.isinf": math.isinf, "numpy.abs": abs,
    "numpy.floor": math.floor, "numpy.ceil": math.ceil, "numpy.round": round, "numpy.rint": round,
    "numpy.sign": lambda v: v if math.isnan(v) else (v > 0) - (v < 0),
    "numpy.signbit": lambda v: math.copysign(1, v) < 0,
    "meth.isna": math.isnan, "meth.isnull": math.isnan, "meth.notna": lambda v: not math.isnan(v),
    "meth.notnull": lambda v: not math.isnan(v), "builtins.float": float, "numpy.float64": float,
    "numpy.isposinf": lambda v: v == math.inf, "numpy.isneginf": lambda v: v == -math.inf,
    "numpy.ravel": lambda v: v, "numpy.squeeze": lambda v: v, "numpy.unique": lambda v: v, "builtins.set": lambda v: v,
    "numpy.atleast_1d": lambda v: v, "pandas.unique": lambda v: v, "meth.unique": lambda v: v,
    "meth.flatten": lambda v: v,
}
PASS = {"meth.astype"}
CMP = {"<": lambda a, b: a < b, "<=": lambda a, b: a <= b, "==": lambda a, b: a == b, "!=": lambda a, b: a != b}
BIN = {"Add": lambda a, b: a + b, "Sub": lambda a, b: a - b, "Mult": lambda a, b: a * b,
       "Div": lambda a, b: a / b if b else math.nan, "Pow": lambda a, b: a ** b, "Mod": lambda a, b: a % b,
       "BitAnd": lambda a, b: bool(a and b), "BitOr": lambda a, b: bool(a or b), "BitXor": lambda a, b: bool(a) != bool(b)}
SETDIFF = {"numpy.setdiff1d"}


class NoVal(Exception):
    pass


class PartEval(object):
    def __init__(self, syms, value, empty=False):
        """``syms``: terms that denote the array; ``value``: representative of the class one element belongs to."""
        self.syms = set(syms)
        self.value = value
        self.empty = empty
        self.memo = {}
        self.inner = False  # inside a comprehension, where elem(y) ranges over all elements

    # ------------------------------------------------------------- elements
    def elem(self, t):
        """Value of the elementwise expression t at the element of the class."""
        if t in self.syms:
            return self.value
        op = t.op
        if op == "const":
            if isinstance(t.args[0], (int, float, bool)):
                return t.args[0]
            raise NoVal()
        if op == "ext" and t.args[0] == "numpy.nan":
            return math.nan
        if op == "ext" and t.args[0] == "numpy.inf":
            return math.inf
        try:
            if op == "bin" and t.args[0] in BIN:
                a, b = self.elem(t.args[1]), self.elem(t.args[2])
                return BIN[t.args[0]](a, b)
            if op == "un":
                v = self.elem(t.args[1])
                if t.args[0] in ("neg", "USub"):
                    return -v
                if t.args[0] in ("inv", "Invert"):
                    if isinstance(v, bool):
                        return not v
                    raise NoVal()
                if t.args[0] in ("pos", "UAdd"):
                    return v
                raise NoVal()
            if op == "not":
                return not self.elem(t.args[0])
            if op == "and":
                return all([bool(self.elem(a)) for a in t.args])
            if op == "or":
                return any([bool(self.elem(a)) for a in t.args])
            if op == "cmp" and t.args[0] in CMP:
                return CMP[t.args[0]](self.elem(t.args[1]), self.elem(t.args[2]))
            if op == "call":
                q = t.args[0]
                pos = [a for a in t.args[1:] if a.op != "kw"]
                if q in ELEMENTWISE and pos:
                    return ELEMENTWISE[q](self.elem(pos[0]))
                if q == "numpy.where" and len(pos) == 3:
                    return self.elem(pos[1] if self.elem(pos[0]) else pos[2])
                if q in PASS and pos:
                    return self.elem(pos[0])
                if q in ("numpy.isin", "numpy.in1d", "meth.isin") and len(pos) == 2:
                    vals = self.consts(pos[1])
                    inv = any(a.op == "kw" and a.args[0] == "invert" for a in t.args[1:])
                    r = self.elem(pos[0]) in vals
                    return r != inv
            if op == "comp" and len(t.args) == 3:
                old, self.inner = self.inner, True
                try:
                    return self.elem(t.args[1])
                finally:
                    self.inner = old
            if op == "elem" and not self.inner:
                raise NoVal()
            if op == "elem":
                return self.elem(t.args[0])
            if op == "phi":
                c = self.elem(t.args[0])
                return self.elem(t.args[1] if c else t.args[2])
            if op == "truth":
                return bool(self.elem(t.args[0]))
        except (TypeError, OverflowError, ValueError, ZeroDivisionError):
            raise NoVal()
        raise NoVal()

    def consts(self, t):
        if t.op in ("list", "tuple", "set") and all(a.op == "const" for a in t.args):
            return [a.args[0] for a in t.args]
        if t.op == "call" and t.args[0] in ("builtins.set", "numpy.array", "builtins.frozenset") and len(t.args) == 2:
            return self.consts(t.args[1])
        raise NoVal()

    def try_elem(self, t):
        try:
            return self.elem(t)
        except NoVal:
            return None

    def about(self, t):
        """t mentions the array."""
        r = self.memo.get(t)
        if r is None:
            r = t in self.syms or any(self.about(a) for a in t.kids())
            self.memo[t] = r
        return r

    # --------------------------------------------------------------- arrays
    def rows(self, t):
        """t is the number of elements of (something shaped like) the array."""
        if t.op == "call" and t.args[0] in ("builtins.len", "numpy.size", "meth.__len__") and len(t.args) == 2:
            return t.args[1] in self.syms or self.about(t.args[1]) and self.shape_like(t.args[1])
        if t.op == "len":
            return self.shape_like(t.args[0])
        if t.op == "attr" and t.args[1] in ("size", "__len__"):
            return self.shape_like(t.args[0])
        if t.op == "sub" and t.args[1].op == "const" and t.args[1].args[0] == 0:
            a = t.args[0]
            if a.op == "attr" and a.args[1] == "shape":
                return self.shape_like(a.args[0])
            if a.op == "call" and a.args[0] == "numpy.shape":
                return self.shape_like(a.args[1])
        return False

    def shape_like(self, t):
        if t in self.syms:
            return True
        return self.about(t) and self.try_elem(t) is not None

    def ask(self, t):
        """Truth of a condition, or None."""
        if not self.about(t):
            return None
        op = t.op
        if op == "not":
            r = self.ask(t.args[0])
            return None if r is None else not r
        if op in ("and", "or"):
            rs = [self.ask(a) for a in t.args]
            bad = op == "or"
            if bad in rs:
                return bad
            return None if None in rs else (not bad)
        if op == "truth":
            return self.ask(t.args[0])
        if op == "call":
            return self.ask_call(t)
        if op == "cmp":
            return self.ask_cmp(t)
        if op == "attr" and t.args[1] == "empty" and self.shape_like(t.args[0]):
            return self.empty
        if self.rows(t):
            return not self.empty
        if op == "len" and not self.empty and self.selected(t.args[0]):
            return True
        return None

    def selected(self, t):
        """y[mask] keeps the element, or y without the allowed values is not empty."""
        if t.op == "sub":
            return self.try_elem(t.args[1]) is True
        return bool(self._outside(t))

    def num(self, t):
        """0 if a number is known to be zero for empty data."""
        if self.rows(t):
            return 0
        if t.op == "const":
            return t.args[0]
        if t.op == "bin" and t.args[0] == "Mult" and 0 in (self.num(t.args[1]), self.num(t.args[2])):
            return 0
        if t.op == "call" and t.args[0] in ("builtins.min", "numpy.min"):
            if any(self.num(a) == 0 for a in t.args[1:]) and all(a.op == "len" or self.rows(a) for a in t.args[1:]):
                return 0
        return None

    def ask_call(self, t):
        q = t.args[0]
        pos = [a for a in t.args[1:] if a.op != "kw"]
        if q in ("numpy.all", "builtins.all") and pos:
            if self.empty:
                return True if self.shape_like(pos[0]) else None
            return False if self.false(self.try_elem(pos[0])) else None
        if q in ("numpy.any", "builtins.any", "numpy.count_nonzero", "numpy.sum") and pos:
            if self.empty:
                return False if self.shape_like(pos[0]) else None
            v = self.try_elem(pos[0])
            if q == "numpy.sum" and not isinstance(v, bool):
                return None
            return True if v else None
        if q in ("numpy.isnan",) and pos:
            a = self.aggregate(pos[0])
            if a is not None and math.isnan(a):
                return True
        if q in ("numpy.isfinite",) and pos:
            a = self.aggregate(pos[0])
            if a is not None and not math.isfinite(a):
                return False
        if q in ("meth.issubset",) and len(pos) == 2 and not self.empty:
            try:
                return False if self.elem(pos[0]) not in self.consts(pos[1]) else None
            except NoVal:
                return None
        if q in SETDIFF and len(pos) == 2 and not self.empty:
            try:
                return True if self.elem(pos[0]) not in self.consts(pos[1]) else None
            except NoVal:
                return None
        if q == "builtins.bool" and pos:
            return self.ask(pos[0])
        if self.rows(t):
            return False if self.empty else True
        return None

    @staticmethod
    def false(v):
        return v is not None and not v

    def aggregate(self, t):
        """Value of an aggregate of the array when the class decides it (NaN and infinities spread)."""
        if t.op == "call" and t.args[0] in ("numpy.sum", "numpy.mean", "numpy.min", "numpy.max", "numpy.dot"):
            v = self.try_elem(t.args[1])
            if isinstance(v, float) and math.isnan(v):
                return v
            if isinstance(v, float) and math.isinf(v) and t.args[0] in ("numpy.sum", "numpy.mean"):
                return v
        return None

    def ask_cmp(self, t):
        op, a, b = t.args
        for x, y, flip in ((a, b, False), (b, a, True)):
            if y.op != "const" or not isinstance(y.args[0], (int, float)):
                continue
            c = y.args[0]
            if self.empty and op in CMP and self.about(x):
                n = self.num(x)
                if n is not None:
                    return CMP[op](c, n) if flip else CMP[op](n, c)
            if self.rows(x):
                n = 0 if self.empty else 1
                if self.empty:
                    return CMP[op](c, 0) if flip else CMP[op](0, c) if op in CMP else None
                # at least one element
                if op == "==" and c == 0:
                    return False
                if op == "!=" and c == 0:
                    return True
                if not flip and op == "<" and c <= 1 or not flip and op == "<=" and c < 1:
                    return False
                if flip and op == "<" and c < n or flip and op == "<=" and c <= n:
                    return True
                return None
            if self.empty:
                continue
            if x.op == "call" and x.args[0] in ("numpy.min", "numpy.max", "builtins.min", "builtins.max"):
                v = self.try_elem(x.args[1])
                if v is None:
                    continue
                if isinstance(v, float) and math.isnan(v):
                    if x.args[0].startswith("numpy"):
                        return op == "!="
                    continue
                low = x.args[0].endswith("min")
                # min(y) <= v and max(y) >= v
                if low and not flip and op in ("<", "<=") and CMP[op](v, c):
                    return True
                if low and flip and op in ("<", "<=") and not CMP[op](c, v):
                    return False
                if not low and flip and op in ("<", "<=") and CMP[op](c, v):
                    return True
                if not low and not flip and op in ("<", "<=") and not CMP[op](v, c):
                    return False
            if x.op == "call" and x.args[0] in ("numpy.sum", "numpy.count_nonzero", "builtins.len") or (
                    x.op == "len" or x.op == "attr" and x.args[1] == "size"):
                inner = x.args[1] if x.op == "call" else x.args[0]
                hit = None
                if x.op != "call" or x.args[0] == "builtins.len":
                    hit = self.selected(inner)
                elif x.op == "call" and x.args[0] != "builtins.len":
                    hit = self.try_elem(inner) is True
                if hit:
                    if op == "==" and c == 0:
                        return False
                    if op == "!=" and c == 0:
                        return True
                    if flip and op == "<" and c == 0 or flip and op == "<=" and c == 1:
                        return True
                    if not flip and op == "<=" and c == 0 or not flip and op == "<" and c == 1:
                        return False
        # set(y) <= {..}
        if op in ("<=", "==", "<") and not self.empty:
            try:
                if self.elem(a) not in self.consts(b):
                    return False
            except NoVal:
                pass
        # sum(P) == len(y)
        if op in ("==", "<", "!=") and not self.empty:
            for x, y in ((a, b), (b, a)):
                if x.op == "call" and x.args[0] in ("numpy.sum", "numpy.count_nonzero") and self.rows(y):
                    if self.try_elem(x.args[1]) is False:
                        return {"==": False, "!=": True, "<": x is a}[op]
        return None

    def _outside(self, t):
        try:
            if t.op == "call" and t.args[0] in SETDIFF | {"meth.difference"} or t.op == "bin" and t.args[0] == "Sub":
                return self.elem(t.args[1]) not in self.consts(t.args[2])
        except NoVal:
            pass
        return None

    # ------------------------------------------------------------ vocabulary
    def open(self, t):
        """A condition on nothing but the array that is written in terms this evaluation does not know."""
        names = {x.args[0] for x in walk(t) if x.op == "sym"}
        if not names or not names <= {s.args[0] for s in self.syms}:
            return False
        return any(x.op not in KNOWN_OPS or x.op == "call" and x.args[0] not in KNOWN_CALLS for x in walk(t))


KNOWN_OPS = {"sym", "const", "bin", "un", "not", "and", "or", "cmp", "call", "phi", "truth", "attr", "len", "sub", "kw",
             "list", "tuple", "set", "ext"}
KNOWN_CALLS = set(ELEMENTWISE) | PASS | SETDIFF | {
    "numpy.all", "numpy.any", "builtins.all", "builtins.any", "numpy.sum", "numpy.mean", "numpy.min", "numpy.max",
    "numpy.nanmin", "numpy.nanmax", "numpy.nansum", "numpy.isin", "numpy.where", "builtins.len", "numpy.count_nonzero"}
