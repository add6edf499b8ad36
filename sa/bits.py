"""Canonical form of value-graph terms over integer flag words.

A flag word is a vector of boolean variables; every bit of every derived
integer is a reduced ordered decision diagram over them, so two expressions
that mean the same have the same form however they are written.
"""
from .terms import T
from .state import PhiV

WIDTH = 15  # the named bits 0..12, one bit standing for every other bit, and the sign


class NoForm(Exception):
    """The term is not built from flag words and constants alone."""


class Dd(object):
    """Decision diagrams; nodes are hash-consed tuples (variable, low, high)."""

    def __init__(self):
        self.memo = {}

    def var(self, i):
        return self._mk(i, False, True)

    def _mk(self, v, lo, hi):
        if lo is hi:
            return lo
        k = ("n", v, self._id(lo), self._id(hi))
        n = self.memo.get(k)
        if n is None:
            n = (v, lo, hi)
            self.memo[k] = n
        return n

    @staticmethod
    def _id(x):
        return x if isinstance(x, bool) else id(x)

    def ite(self, c, a, b):
        if c is True:
            return a
        if c is False:
            return b
        if a is b:
            return a
        if a is True and b is False:
            return c
        k = ("i", self._id(c), self._id(a), self._id(b))
        r = self.memo.get(k)
        if r is not None:
            return r[0]
        v = min(x[0] for x in (c, a, b) if not isinstance(x, bool))
        r = self._mk(v, self.ite(self._co(c, v, 1), self._co(a, v, 1), self._co(b, v, 1)),
                     self.ite(self._co(c, v, 2), self._co(a, v, 2), self._co(b, v, 2)))
        self.memo[k] = (r, c, a, b)
        return r

    @staticmethod
    def _co(x, v, side):
        if isinstance(x, bool) or x[0] != v:
            return x
        return x[side]

    def neg(self, a):
        return self.ite(a, False, True)

    def conj(self, a, b):
        return self.ite(a, b, False)

    def disj(self, a, b):
        return self.ite(a, True, b)

    def xor(self, a, b):
        return self.ite(a, self.neg(b), b)

    def implies(self, a, b):
        return self.ite(a, b, True) is True

    def one(self, a):
        """A satisfying assignment."""
        out = {}
        while not isinstance(a, bool):
            if a[2] is not False:
                out[a[0]] = True
                a = a[2]
            else:
                out[a[0]] = False
                a = a[1]
        return out if a else None


class Word(object):
    def __init__(self, bits):
        self.bits = bits


class Cases(object):
    """Constants that are not integers, with the condition under which each is the value."""

    def __init__(self, items):
        self.items = items


class Forms(object):
    def __init__(self, words, consts=None):
        """``words``: terms denoting unknown flag words; ``consts``: resolves further constant terms."""
        self.dd = Dd()
        self.words = {}
        for n, t in enumerate(words):
            self.words[t] = Word([self.dd.var(i * len(words) + n) for i in range(WIDTH)])
        self.consts = consts
        self.memo = {}

    # ---------------------------------------------------------------- values
    def const(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, int):
            if not -(1 << WIDTH - 1) <= v < 1 << WIDTH - 1:
                raise NoForm()
            return Word([bool(v >> i & 1) for i in range(WIDTH)])
        return Cases([(True, v)])

    def value(self, t):
        r = self.memo.get(t)
        if r is None:
            try:
                r = self._value(t)
            except NoForm as e:
                r = e
            self.memo[t] = r
        if isinstance(r, NoForm):
            raise r
        return r

    def word(self, t):
        v = self.value(t)
        return self.as_word(v)

    def as_word(self, v):
        if isinstance(v, Word):
            return v.bits
        if isinstance(v, Cases):
            raise NoForm()
        return [v] + [False] * (WIDTH - 1)

    def bool(self, t):
        """Truth of a term as a diagram."""
        v = self.value(t)
        if isinstance(v, Word):
            r = False
            for b in v.bits:
                r = self.dd.disj(r, b)
            return r
        if isinstance(v, Cases):
            r = False
            for c, x in v.items:
                if x:
                    r = self.dd.disj(r, c)
            return r
        return v

    def eq(self, a, b):
        if isinstance(a, Cases) or isinstance(b, Cases):
            if not (isinstance(a, Cases) and isinstance(b, Cases)):
                return False
            r = False
            for c, x in a.items:
                for d, y in b.items:
                    if x == y:
                        r = self.dd.disj(r, self.dd.conj(c, d))
            return r
        r = True
        for x, y in zip(self.as_word(a), self.as_word(b)):
            r = self.dd.conj(r, self.dd.neg(self.dd.xor(x, y)))
        return r

    def add(self, a, b, carry=False):
        d, out = self.dd, []
        for x, y in zip(a, b):
            s = d.xor(x, y)
            out.append(d.xor(s, carry))
            carry = d.disj(d.conj(x, y), d.conj(s, carry))
        return out

    def less(self, a, b):
        d = self.dd
        n = WIDTH - 1
        r = False
        for i in range(n):
            r = d.ite(d.xor(a[i], b[i]), b[i], r)
        return d.ite(d.xor(a[n], b[n]), a[n], r)

    def _value(self, t):
        d = self.dd
        if t in self.words:
            return self.words[t]
        op, a = t.op, t.args
        if op == "const":
            return self.const(a[0])
        if self.consts is not None:
            c = self.consts(t)
            if c is not None:
                return self.const(c[0])
        if op == "bin":
            if a[0] in ("BitAnd", "BitOr", "BitXor"):
                f = {"BitAnd": d.conj, "BitOr": d.disj, "BitXor": d.xor}[a[0]]
                x, y = self.value(a[1]), self.value(a[2])
                if not isinstance(x, (Word, Cases)) and not isinstance(y, (Word, Cases)):
                    return f(x, y)
                return Word([f(u, v) for u, v in zip(self.as_word(x), self.as_word(y))])
            if a[0] == "Add":
                return Word(self.add(self.word(a[1]), self.word(a[2])))
            if a[0] == "Sub":
                return Word(self.add(self.word(a[1]), [d.neg(b) for b in self.word(a[2])], True))
            if a[0] in ("LShift", "RShift"):
                n = a[2].args[0] if a[2].op == "const" and isinstance(a[2].args[0], int) else None
                if n is None or n < 0 or n >= WIDTH:
                    raise NoForm()
                w = self.word(a[1])
                return Word([False] * n + w[:WIDTH - n] if a[0] == "LShift" else w[n:] + [w[-1]] * n)
            raise NoForm()
        if op == "un":
            if a[0] in ("inv", "Invert"):
                return Word([d.neg(b) for b in self.word(a[1])])
            if a[0] in ("neg", "USub"):
                return Word(self.add([d.neg(b) for b in self.word(a[1])], self.const(1).bits))
            raise NoForm()
        if op == "inv":
            return Word([d.neg(b) for b in self.word(a[0])])
        if op == "cmp":
            if a[0] in ("==", "is", "!=", "is not"):
                r = self.eq(self.value(a[1]), self.value(a[2]))
                return r if a[0] in ("==", "is") else d.neg(r)
            if a[0] in ("<", "<=", ">", ">="):
                x, y = self.word(a[1]), self.word(a[2])
                if a[0] in (">", ">="):
                    x, y = y, x
                return self.less(x, y) if a[0] in ("<", ">") else d.neg(self.less(y, x))
            if a[0] in ("in", "not in") and a[2].op in ("tuple", "list", "set"):
                x, r = self.value(a[1]), False
                for k in a[2].args:
                    r = d.disj(r, self.eq(x, self.value(k)))
                return r if a[0] == "in" else d.neg(r)
            raise NoForm()
        if op == "not":
            return d.neg(self.bool(a[0]))
        if op in ("and", "or"):
            r = op == "and"
            for k in a:
                r = d.conj(r, self.bool(k)) if op == "and" else d.disj(r, self.bool(k))
            return r
        if op == "truth":
            return self.bool(a[0])
        if op == "isinstance":
            v = self.value(a[0])
            names = [x.args[0] for x in a[1:] if isinstance(x, T) and x.op == "ext"]
            if isinstance(v, Word) and len(names) == len(a) - 1:
                return any(n in ("builtins.int", "numbers.Number", "numbers.Integral") for n in names)
            raise NoForm()
        if op == "phi":
            c = self.bool(a[0])
            if c is True:
                return self.value(a[1])
            if c is False:
                return self.value(a[2])
            x, y = self.value(a[1]), self.value(a[2])
            if isinstance(x, Cases) and isinstance(y, Cases):
                return Cases([(d.conj(c, k), v) for k, v in x.items] + [(d.conj(d.neg(c), k), v) for k, v in y.items])
            if isinstance(x, Cases) or isinstance(y, Cases):
                raise NoForm()
            if isinstance(x, Word) or isinstance(y, Word):
                return Word([d.ite(c, u, v) for u, v in zip(self.as_word(x), self.as_word(y))])
            return d.ite(c, x, y)
        if op == "call":
            q = a[0]
            if q in ("builtins.int", "operator.index") and len(a) == 2:
                return Word(self.word(a[1]))
            if q in ("builtins.bool", "operator.truth") and len(a) == 2:
                return self.bool(a[1])
            if q in ("builtins.sum", "numpy.sum") and len(a) == 2 and a[1].op in ("tuple", "list"):
                r = self.const(0).bits
                for k in a[1].args:
                    r = self.add(r, self.word(k))
                return Word(r)
            if q in ("builtins.any", "builtins.all") and len(a) == 2 and a[1].op in ("tuple", "list"):
                r = q.endswith("all")
                for k in a[1].args:
                    r = d.conj(r, self.bool(k)) if q.endswith("all") else d.disj(r, self.bool(k))
                return r
        raise NoForm()

    # ---------------------------------------------------------------- leaves
    def leaves(self, v, cond=True):
        """(condition, leaf) of a merged value."""
        if cond is False:
            return
        if isinstance(v, PhiV):
            c = self.bool(v.cond)
            for x in self.leaves(v.a, self.dd.conj(cond, c)):
                yield x
            for x in self.leaves(v.b, self.dd.conj(cond, self.dd.neg(c))):
                yield x
        else:
            yield cond, v

    def path(self, facts):
        """Condition of a path."""
        r = True
        for t, b in facts.items():
            c = self.bool(t)
            r = self.dd.conj(r, c if b else self.dd.neg(c))
        return r
