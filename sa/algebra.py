"""Algebra of elementary functions on the value graph.

A value is kept as coefficient * product of atoms and sums with rational exponents.
Atoms are symbols, opaque terms and functions of values; a function applied to its
inverse cancels.  Nothing is evaluated numerically: two values are equal if their
difference is the empty sum.

Conditions are cases: a comparison asks for the sign of a difference, anything else for
a truth value.  `cases` runs a computation once per combination of answers it asks for.
"""
from fractions import Fraction as F

from .terms import _BIN, T, show, walk


class Need(Exception):
    def __init__(self, key, options):
        Exception.__init__(self)
        self.key, self.options = key, options


class Undefined(Exception):
    pass


class Unknown(Exception):
    pass


class TooLarge(Exception):
    pass


class Settled(Exception):
    """A sum was found to be zero: what was computed before has to be computed again."""


ZERO = (F(0), (), ())
ONE = (F(1), (), ())
LIMIT = 3000


def number(c):
    c = c if isinstance(c, F) else F(repr(c)) if isinstance(c, float) else F(c)
    return (c, (), ()) if c else ZERO


def _primes(n):
    out, d = {}, 2
    while d * d <= n and d < 2000:
        while n % d == 0:
            out[d] = out.get(d, 0) + 1
            n //= d
        d += 1
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def _minus(p):
    return tuple((k, -c) for k, c in p)


def cases(compute, limit=400):
    """(answers, result) of `compute(answers)` for every combination of answers it needs."""
    todo, out = [{}], []
    while todo:
        answers = todo.pop()
        try:
            out.append((answers, compute(dict(answers))))
        except Need as n:
            for o in n.options:
                todo.append({**answers, n.key: o})
        if len(out) + len(todo) > limit:
            raise TooLarge()
    return out


class Algebra(object):
    """One case.  answers: sign of sums / truth of conditions, by key."""

    def __init__(self, answers=()):
        self.answers = dict(answers)
        self.atoms = []          # id -> (kind, data)
        self.index = {}
        self.fns = {}            # function name (and extra) -> [(arg, atom id)]
        self.positive = set()    # atom ids known to be positive
        self.replace = {}        # atom id -> value
        self.moving = set()      # atoms that stand for the argument
        self.above = set()       # sums known to be positive
        self.meta = {}           # function name (and extra) -> laws

    # atoms and values
    def atom(self, kind, data, positive=False):
        k = (kind, data)
        if k not in self.index:
            self.index[k] = len(self.atoms)
            self.atoms.append(k)
        i = self.index[k]
        if positive:
            self.positive.add(i)
        return self.replace.get(i) or (F(1), ((i, F(1)),), ())

    def symbol(self, name, positive=False, moving=False):
        v = self.atom("sym", name, positive)
        if moving:
            self.moving.add(v[1][0][0])
        return v

    def assume_positive(self, v):
        """v > 0: tells the sign of its only sum of unknown sign."""
        sign, left = 1 if v[0] > 0 else -1, []
        for p, e in v[2]:
            way = self._way(p)
            if e % 2 and not way:
                left.append(p)
            elif e % 2:
                sign *= way
        if len(left) == 1:
            self.above.add(left[0] if sign > 0 else _minus(left[0]))

    def calculate(self, compute):
        """compute() again whenever an equation of the case was used."""
        for _ in range(6):
            try:
                return compute()
            except Settled:
                self.fns.clear()
                self.above.clear()
        raise Unknown("equations")

    def settle(self, p):
        """The sum is zero: express one of its symbols by the others."""
        choices = []
        for k, c in p:
            if len(k) == 1 and k[0][1] == 1 and sum(k[0][0] in dict(o) for o, _ in p) == 1:
                choices.append((k[0][0], c))
        for i, c in sorted(choices, reverse=True):
            rest = self.of_poly({k: x for k, x in p if k != ((i, F(1)),)})
            if self._solve(i, self.mul(number(-1 / c), rest)):
                raise Settled()
        raise Unknown("equation %s" % self.poly_name(p))

    def _solve(self, i, v):
        kind, data = self.atoms[i]
        if kind == "sym":
            if i in self.moving or i in self.replace or self.occurs(v, lambda j: j == i):
                return False
            self.replace[i] = v
            return True
        if kind == "log":
            return isinstance(data, int) and self._solve(data, self.exp(v))
        if kind == "logof":
            return self._solve_sum(data, self.exp(v))
        if kind == "fn" and data[0] in ("ppf", "cdf"):
            w = self.fn("cdf" if data[0] == "ppf" else "ppf", v, extra=data[1], inverse=data[0])
            a = data[2]
            if len(a[2]) == 1 and a[2][0][1] == 1 and a[0]:
                return self._solve_sum(a[2][0][0], self.div(w, (a[0], a[1], ())))
            if len(a[1]) >= 1 and not a[2]:
                return self._solve(a[1][0][0], self.div(w, (a[0], a[1][1:], ()))) if a[1][0][1] == 1 else False
        return False

    def _solve_sum(self, p, v):
        for k, c in sorted(p, reverse=True):
            if len(k) == 1 and k[0][1] == 1 and sum(k[0][0] in dict(o) for o, _ in p) == 1:
                rest = self.of_poly({o: x for o, x in p if o != k})
                if self._solve(k[0][0], self.mul(number(1 / c), self.sub(v, rest))):
                    return True
        return False

    def mul(self, a, b):
        if not a[0] or not b[0]:
            return ZERO
        m, f = dict(a[1]), dict(a[2])
        for i, e in b[1]:
            m[i] = m.get(i, 0) + e
        for p, e in b[2]:
            f[p] = f.get(p, 0) + e
        return self._norm(a[0] * b[0], m, f)

    def _norm(self, c, m, f):
        for i in [i for i in m if self.atoms[i][0] == "base"]:
            whole = m[i].numerator // m[i].denominator
            if whole:
                v = self.of_poly(dict(self.atoms[i][1]))
                m[i] -= whole
                c *= v[0] ** whole
                for p, e in v[2]:
                    f[p] = f.get(p, 0) + whole
        for p in [p for p in f if F(f[p]).denominator != 1]:
            e = F(f[p])
            whole = e.numerator // e.denominator
            f[p] = F(whole)
            i = self._id("base", p)
            m[i] = m.get(i, 0) + (e - whole)
            if m[i] >= 1:
                m[i] -= 1
                f[p] += 1
        return (c, tuple(sorted((i, F(e)) for i, e in m.items() if e)),
                tuple(sorted(((p, F(e)) for p, e in f.items() if e), key=lambda x: repr(x))))

    def _id(self, kind, data):
        k = (kind, data)
        if k not in self.index:
            self.index[k] = len(self.atoms)
            self.atoms.append(k)
        return self.index[k]

    def power(self, a, e):
        e = F(e)
        if not a[0]:
            if e > 0:
                return ZERO
            if e == 0:
                return ONE
            raise Undefined("division by zero")
        if e.denominator == 1:
            c = a[0] ** int(e) if e >= 0 else 1 / a[0] ** int(-e)
            return self._norm(F(c), {i: x * e for i, x in a[1]}, {p: x * e for p, x in a[2]})
        c, m = F(1), {i: x * e for i, x in a[1]}
        factors = {p: x * e for p, x in a[2]}
        if a[0] < 0:
            odd = [p for p, x in a[2] if x % 2 == 1]
            if not odd:
                raise Unknown("root of a negative number")
            p = odd[0]
            i = self._id("base", _minus(p))
            m[i] = m.get(i, 0) + factors.pop(p)
            a = (-a[0],) + a[1:]
        out = ONE
        for q, k in list(_primes(a[0].numerator).items()) + [(q, -k) for q, k in _primes(a[0].denominator).items()]:
            x = k * e
            whole = x.numerator // x.denominator
            c *= F(q) ** whole
            if x - whole:
                out = self.mul(out, self._norm(F(1), {self._id("prime", q): x - whole}, {}))
        return self.mul(out, self._norm(c, m, factors))

    def neg(self, a):
        return (-a[0], a[1], a[2]) if a[0] else ZERO

    def div(self, a, b):
        return self.mul(a, self.power(b, -1))

    def sub(self, a, b):
        return self.add(a, self.neg(b))

    def add(self, a, b):
        if not a[0]:
            return b
        if not b[0]:
            return a
        if a[1:] == b[1:]:
            c = a[0] + b[0]
            return (c,) + a[1:] if c else ZERO
        fa, fb = dict(a[2]), dict(b[2])
        common = {p: min(fa.get(p, F(0)), fb.get(p, F(0))) for p in set(fa) | set(fb)}
        ma, mb = dict(a[1]), dict(b[1])
        cm = {i: min(ma.get(i, F(0)), mb.get(i, F(0))) for i in set(ma) | set(mb)}
        pa = self._expand(a[0], {i: ma.get(i, F(0)) - cm[i] for i in cm}, {p: fa.get(p, F(0)) - common[p] for p in common})
        pb = self._expand(b[0], {i: mb.get(i, F(0)) - cm[i] for i in cm}, {p: fb.get(p, F(0)) - common[p] for p in common})
        for k, c in pb.items():
            pa[k] = pa.get(k, 0) + c
        return self.mul(self.of_poly(pa), self._norm(F(1), cm, common))

    def _expand(self, c, m, f):
        p = {tuple(sorted((i, e) for i, e in m.items() if e)): F(c)}
        for q, e in f.items():
            for _ in range(int(e)):
                p = self._pmul(p, dict(q))
        return p

    def _pmul(self, p, q):
        out = {}
        for a, x in p.items():
            for b, y in q.items():
                m = dict(a)
                for i, e in b:
                    m[i] = m.get(i, 0) + e
                extra = []
                for i in list(m):
                    kind, data = self.atoms[i]
                    if kind == "base" and m[i] >= 1:
                        m[i] -= 1
                        extra.append(dict(data))
                r = {tuple(sorted((i, e) for i, e in m.items() if e)): x * y}
                for z in extra:
                    r = self._pmul(r, z)
                for k, v in r.items():
                    out[k] = out.get(k, 0) + v
                if len(out) > LIMIT:
                    raise TooLarge()
        return out

    def of_poly(self, p):
        p = {k: c for k, c in p.items() if c}
        if not p:
            return ZERO
        low = {}
        for n, k in enumerate(p):
            d = dict(k)
            low = dict(d) if n == 0 else {i: min(low.get(i, F(0)), d.get(i, F(0))) for i in set(low) | set(d)}
        low = {i: e for i, e in low.items() if e}
        q = {}
        for k, c in p.items():
            d = dict(k)
            for i, e in low.items():
                d[i] = d.get(i, F(0)) - e
            q[tuple(sorted((i, e) for i, e in d.items() if e))] = c
        if len(q) == 1:
            return self._norm(list(q.values())[0], low, {})
        lead = q[max(q, key=lambda k: (sum(abs(e) for _, e in k), k))]
        key = tuple(sorted((k, c / lead) for k, c in q.items()))
        return self._norm(lead, low, {key: F(1)})

    def same(self, a, b):
        return a == b or not self.sub(a, b)[0]

    # signs
    def positives(self, key):
        return all(c > 0 and all(i in self.positive for i, _ in k) for k, c in key)

    def sign(self, a):
        if not a[0]:
            return 0
        s = 1 if a[0] > 0 else -1
        for i, e in a[1]:
            if i in self.positive or self.atoms[i][0] in ("exp", "base", "prime"):
                continue
            if e.denominator == 1 and e % 2 == 0:
                continue
            free = self.atoms[i][0] in ("sym", "term") and i not in self.moving
            r = self._ask(("sign", self.name(i)), (1, 0, -1) if free else (1, -1))
            if r == 0:
                self.replace[i] = ZERO
                raise Settled()
            s *= r
        for p, e in a[2]:
            if e % 2 == 0:
                continue
            way = self._way(p)
            if way:
                s *= way
                continue
            order = self._order(p)
            if order is not None:
                s *= order
                continue
            moving = any(self.moves(i) for k, _ in p for i, _ in k)
            r = self._ask(("sign", self.poly_name(p)), (1, -1) if moving else (1, 0, -1))
            if r == 0:
                self.settle(p)
            s *= r
        return s

    def _order(self, p):
        """Sign of f(u) - f(v) with an increasing f."""
        if len(p) != 2 or p[0][1] != -p[1][1] or any(len(k) != 1 or k[0][1] != 1 for k, _ in p):
            return None
        (f, u), (g, v) = [self._argument(k[0][0]) for k, _ in p]
        if f is None or f != g:
            return None
        return self.sign(self.sub(u, v)) * (1 if p[0][1] > 0 else -1)

    def _argument(self, i):
        kind, data = self.atoms[i]
        if kind == "log":
            return "log", (F(1), ((data, F(1)),), ()) if isinstance(data, int) else number(data[0])
        if kind == "logof":
            return "log", self.of_poly(dict(data))
        if kind == "exp":
            return "exp", (F(1),) + data
        if kind == "fn" and data[0] in ("ppf", "cdf", "sinh", "arcsinh"):
            return data[:2], data[2]
        return None, None

    def occurs(self, v, wanted):
        return any(self.within(i, wanted) for i, _ in v[1]) or self._in_sums([p for p, _ in v[2]], wanted)

    def _in_sums(self, sums, wanted):
        return any(self.within(i, wanted) for p in sums for k, _ in p for i, _ in k)

    def within(self, i, wanted):
        """Whether an atom is wanted or made of such."""
        if wanted(i):
            return True
        kind, data = self.atoms[i]
        if kind == "fn":
            return self.occurs(data[-1], wanted)
        if kind == "exp":
            return self.occurs((F(1),) + data, wanted)
        if kind in ("base", "logof"):
            return self._in_sums([data], wanted)
        return kind == "log" and isinstance(data, int) and self.within(data, wanted)

    def moves(self, i):
        return self.within(i, lambda j: j in self.moving)

    def _ask(self, key, options):
        if key not in self.answers:
            raise Need(key, options)
        return self.answers[key]

    def name(self, i):
        kind, data = self.atoms[i]
        if kind in ("sym", "prime", "term"):
            return "%s" % (data,)
        if kind == "fn":
            return "%s(%s)" % (data[0], self.show(data[-1]))
        if kind == "exp":
            return "exp(%s)" % self.show((F(1),) + data)
        if kind == "logof":
            return "log(%s)" % self.poly_name(data)
        if kind == "log":
            return "log(%s)" % (self.name(data) if isinstance(data, int) else data[0])
        if kind in ("sum", "near", "bin"):
            return "%s(%s)" % (kind, self.show((F(1),) + data[:2]))
        if kind == "at":
            return "%s of the bin" % self.name(data)
        if kind == "wave":
            return "%s(%s)" % (data[0], self.show(data[1]))
        return "(%s)" % self.poly_name(data)

    def mono_name(self, k):
        return "*".join("%s%s" % (self.name(i), "" if e == 1 else "^%s" % e) for i, e in k) or "1"

    def poly_name(self, p):
        return " + ".join(sorted("%s%s" % ("" if c == 1 else "%s*" % c, self.mono_name(k)) for k, c in p))

    def show(self, a):
        if not a[0]:
            return "0"
        bits = [] if a[0] == 1 and (a[1] or a[2]) else ["%s" % a[0]]
        if a[1]:
            bits.append(self.mono_name(a[1]))
        bits += ["(%s)%s" % (self.poly_name(p), "" if e == 1 else "^%s" % e) for p, e in a[2]]
        return "*".join(bits)

    # functions
    def terms_of(self, a):
        """a as a sum of (coefficient, (monomial, sums it is divided by))."""
        if not a[0]:
            return []
        p = self._expand(a[0], dict(a[1]), {q: e for q, e in a[2] if e > 0})
        below = tuple((q, e) for q, e in a[2] if e < 0)
        return [(c, (k, below)) for k, c in p.items() if c]

    def exp(self, a):
        out = ONE
        for c, k in self.terms_of(a):
            out = self.mul(out, self._exp1(c, k))
        return out

    def _exp1(self, c, key):
        k, below = key
        if len(k) == 1 and k[0][1] == 1 and not below:
            kind, data = self.atoms[k[0][0]]
            if kind == "log" and isinstance(data, int):
                return self.power((F(1), ((data, F(1)),), ()), c)
            if kind == "log":
                if data[0] == -1:
                    if c.denominator == 1:
                        return number(-1 if c % 2 else 1)
                else:
                    return self.power(number(data[0]), c)
            if kind == "logof":
                v = self.of_poly(dict(data))
                if v[0] > 0 or c.denominator == 1:
                    return self.power(v, c)
        return self.power(self.atom("exp", key, True), c)

    def log(self, a):
        if not a[0]:
            raise Undefined("logarithm of zero")
        out, sign, c, open_ = ZERO, 1 if a[0] > 0 else -1, abs(a[0]), []
        for q, k in list(_primes(c.numerator).items()) + [(q, -k) for q, k in _primes(c.denominator).items()]:
            out = self.add(out, self.mul(number(k), self._logatom((q,))))
        for i, e in a[1]:
            kind, data = self.atoms[i]
            if kind == "exp":
                out = self.add(out, (e,) + data)
            elif kind == "base":
                out = self.add(out, self.mul(number(e), self.log(self.of_poly(dict(data)))))
            else:
                out = self.add(out, self.mul(number(e), self._logatom(i)))
        # the argument is positive: this may tell the sign of a sum
        for p, e in a[2]:
            way = self._way(p)
            if way:
                out = self.add(out, self.mul(number(e), self._logpoly(p if way > 0 else _minus(p))))
                sign *= way if e % 2 else 1
            else:
                open_.append((p, e))
        for n, (p, e) in enumerate(open_):
            flip = n == 0 and sign < 0 and e % 2
            if flip:
                p, sign = _minus(p), 1
            if len(open_) == 1 and e % 2:
                self.above.add(p)
            out = self.add(out, self.mul(number(e), self._logpoly(p)))
        if sign < 0:
            out = self.add(out, self._logatom((-1,)))
        return out

    def _way(self, p):
        """1 or -1 if the sign of the sum is known, otherwise 0."""
        if p in self.above or self.positives(p):
            return 1
        if _minus(p) in self.above or self.positives(_minus(p)):
            return -1
        return 0

    def _logatom(self, x):
        return self.atom("log", x)

    def _logpoly(self, p):
        return self.atom("logof", p)

    def _opaque(self, name, a, extra=None):
        table = self.fns.setdefault((name, extra), [])
        for arg, v in table:
            if self.same(arg, a):
                return v
        v = self.atom("fn", (name, extra, a))
        table.append((a, v))
        return v

    def fn(self, name, a, extra=None, inverse=None, odd=False, mirror=None):
        """Function with an inverse; odd: f(-a) = -f(a); mirror=m: f(m - a) = n - f(a) with the pair (m, n)."""
        self.meta[(name, extra)] = (inverse, odd, mirror)
        i = self._is(a, inverse, extra)
        if i is not None:
            return i
        if odd:
            if not a[0]:
                return ZERO
            i = self._is(self.neg(a), inverse, extra)
            if i is not None:
                return self.neg(i)
        if mirror is not None:
            m, n = mirror
            b = self.sub(number(m), a)
            if self.same(a, b):
                return number(n / 2)
            i = self._is(b, inverse, extra)
            if i is not None:
                return self.sub(number(n), i)
        for arg, v in self.fns.get((name, extra), ()):
            if self.same(arg, a):
                return v
            if odd and self.same(self.neg(arg), a):
                return self.neg(v)
            if mirror is not None and self.same(self.sub(number(mirror[0]), arg), a):
                return self.sub(number(mirror[1]), v)
        return self._opaque(name, a, extra)

    def _is(self, a, name, extra):
        if name is None or a[0] != 1 or a[2] or len(a[1]) != 1 or a[1][0][1] != 1:
            return None
        kind, data = self.atoms[a[1][0][0]]
        if kind == "fn" and data[0] == name and data[1] == extra:
            return data[2]
        return None

    def apply(self, f, a):
        if f == "exp":
            return self.exp(a)
        if f == "log":
            return self.log(a)
        if f == "sinh":
            return self.fn("sinh", a, inverse="arcsinh", odd=True)
        if f == "arcsinh":
            return self.fn("arcsinh", a, inverse="sinh", odd=True)
        if f == "cosh":
            return self.fn("cosh", a, inverse="arccosh")
        if f == "arccosh":
            if self.same(a, ONE):
                return ZERO
            try:
                below = self.sign(self.sub(a, ONE)) < 0
            except Need:
                below = False
            if below:
                raise Undefined("arccosh of a value below one")
            return self.fn("arccosh", a)
        if f == "tanh":
            e = self.exp(self.mul(number(2), a))
            return self.div(self.sub(e, ONE), self.add(e, ONE))
        if f == "expit":
            return self.div(ONE, self.add(ONE, self.exp(self.neg(a))))
        if f == "logit":
            return self.log(self.div(a, self.sub(ONE, a)))
        if f == "sqrt":
            return self.power(a, F(1, 2))
        if f == "square":
            return self.mul(a, a)
        if f == "log1p":
            return self.log(self.add(ONE, a))
        if f == "expm1":
            return self.sub(self.exp(a), ONE)
        if f == "log2":
            return self.div(self.log(a), self.log(number(2)))
        if f == "log10":
            return self.div(self.log(a), self.log(number(10)))
        if f == "exp2":
            return self.exp(self.mul(a, self.log(number(2))))
        if f == "negative":
            return self.neg(a)
        if f == "reciprocal":
            return self.div(ONE, a)
        if f == "sign":
            return number(self.sign(a))
        if f in ("abs", "absolute", "fabs"):
            return self.mul(number(self.sign(a)), a)
        raise Unknown(f)

    # hyperbolic functions written with exponentials
    def unfold(self, a, depth=0):
        if depth > 20:
            raise TooLarge()
        if not a[0]:
            return ZERO
        out, arg = self._unfold_product(a[0], a[1], depth)
        for p, e in a[2]:
            # exponentials are compared with that of the first summand, so that arguments cancel
            s, ref = ZERO, None
            for k, c in p:
                v, w = self._unfold_product(c, k, depth)
                ref = w if ref is None else ref
                s = self.add(s, self.mul(v, self._expu(self.sub(w, ref), depth)))
            out = self.mul(out, self.power(s, e))
            arg = self.add(arg, self.mul(number(e), ref))
        return self.mul(out, self._expu(arg, depth))

    def _unfold_product(self, c, k, depth):
        """(product without exponentials, argument of the exponential)"""
        out, arg = number(c), ZERO
        for i, e in k:
            kind, data = self.atoms[i]
            if kind == "exp":
                arg = self.add(arg, self.unfold((e,) + data, depth + 1))
            elif kind == "base":
                v = self.unfold(self.of_poly(dict(data)), depth + 1)
                out = self.mul(out, self.power(v, e))
            else:
                out = self.mul(out, self.power(self._unfold_atom(i, depth), e))
        return out, arg

    def _unfold_atom(self, i, depth):
        kind, data = self.atoms[i]
        if kind == "fn":
            arg = self.unfold(data[2], depth + 1)
            if data[0] in ("sinh", "cosh"):
                e, f = self._expu(arg, depth), self._expu(self.neg(arg), depth)
                return self.mul(number(F(1, 2)), self.sub(e, f) if data[0] == "sinh" else self.add(e, f))
            inverse, odd, mirror = self.meta[(data[0], data[1])]
            return self.fn(data[0], arg, data[1], inverse, odd, mirror)
        return (F(1), ((i, F(1)),), ())

    def _expu(self, a, depth):
        out = ONE
        for c, (k, below) in self.terms_of(a):
            if len(k) == 1 and k[0][1] == 1 and c.denominator == 1 and not below:
                kind, data = self.atoms[k[0][0]]
                if kind == "fn" and data[0] in ("arccosh", "arcsinh"):
                    z = self.unfold(data[2], depth + 1)
                    sq = self.mul(z, z)
                    if data[0] == "arccosh":
                        r = self.power(self.sub(sq, ONE), F(1, 2))
                        base = self.add(z, r) if c > 0 else self.sub(z, r)
                    else:
                        r = self.power(self.add(sq, ONE), F(1, 2))
                        base = self.add(r, z) if c > 0 else self.sub(r, z)
                    v = ONE
                    for _ in range(abs(int(c))):
                        v = self._flat(v, base)
                    out = self._flat(out, v)
                    continue
            out = self.mul(out, self._exp1(c, (k, below)))
        return out

    def _flat(self, a, b):
        """Product, multiplied out (so that roots meet)."""
        c = self.mul(a, b)
        if any(e > 0 for _, e in c[2]):
            p = self._expand(c[0], dict(c[1]), {q: e for q, e in c[2] if e > 0})
            return self.mul(self.of_poly(p), self._norm(F(1), {}, {q: e for q, e in c[2] if e < 0}))
        return c

    def equal(self, a, b):
        if self.same(a, b):
            return True
        try:
            d = self.sub(self.unfold(a), self.unfold(b))
        except TooLarge:
            raise Unknown("size")
        if not d[0]:
            return True
        for _ in range(3):
            # roots that met in products
            d = self._flat(d, ONE)
            if not d[0]:
                return True
        return False


# terms of the value graph

FUNCS = {}
for _n in ("exp log sinh arcsinh cosh arccosh tanh sqrt square log1p expm1 log2 log10 exp2 negative reciprocal sign "
           "abs absolute fabs").split():
    FUNCS["numpy." + _n] = _n
    FUNCS["math." + _n] = _n
FUNCS.update({"scipy.special.expit": "expit", "scipy.special.logit": "logit", "math.asinh": "arcsinh",
              "math.acosh": "arccosh", "builtins.abs": "abs", "abs": "abs"})
SAME = {"cast", "numpy.asarray", "numpy.squeeze", "numpy.array", "numpy.atleast_1d", "numpy.ravel", "numpy.asanyarray",
        "numpy.copy", "numpy.float64", "meth.item", "meth.squeeze", "meth.copy", "meth.astype", "meth.ravel",
        "meth.reshape", "meth.flatten", "builtins.float", "float", "numpy.atleast_2d", "numpy.reshape"}
ARITH = {"numpy.add": "+", "numpy.subtract": "-", "numpy.multiply": "*", "numpy.divide": "/", "numpy.true_divide": "/",
         "numpy.outer": "*", "numpy.power": "**", "math.pow": "**"}
SYMMETRIC = ("scipy.stats.norm", "scipy.stats.logistic")


_ROUND = {"numpy." + n for n in "floor ceil rint round around trunc fix".split()} | {"builtins.round", "builtins.int", "meth.round"}


def _integer(t):
    """Whether a type given to a conversion has no fractional values."""
    if not isinstance(t, T):
        return str(t).startswith(("int", "uint"))
    if t.op == "const":
        return isinstance(t.args[0], str) and t.args[0].lstrip("<>=").startswith(("i", "u"))
    return t.op in ("ext", "class") and isinstance(t.args[0], str) and t.args[0].rpartition(".")[2].startswith(("int", "uint"))


_SHAPES = {"numpy." + n for n in "isscalar ndim shape size iterable".split()} | {
    "builtins." + n for n in "isinstance issubclass hasattr callable len type".split()}


def _computed(c):
    """Whether a condition depends on computed numbers, not just on options and the shapes of arrays."""
    if c.op in ("isinstance", "len") or c.op == "attr" and c.args[1] in ("ndim", "shape", "size", "dtype"):
        return False
    if c.op == "call":
        return c.args[0] not in _SHAPES and c.args[0].rpartition(".")[2] not in ("isscalar", "isinstance", "len")
    return any(_computed(k) for k in c.kids())


class Reader(object):
    """Reads terms as values of an algebra.  known: uid of a term -> value."""

    def __init__(self, alg, known):
        self.a, self.known, self.memo, self.inner = alg, dict(known), {}, {}

    def depends(self, t):
        if t.uid not in self.inner:
            self.inner[t.uid] = any(x.uid in self.known for x in walk(t))
        return self.inner[t.uid]

    def value(self, t):
        if t.uid in self.known:
            return self.known[t.uid]
        if t.uid not in self.memo:
            try:
                self.memo[t.uid] = self._value(t)
            except Unknown:
                if self.depends(t):
                    raise
                self.memo[t.uid] = self.a.atom("term", t.uid)
        return self.memo[t.uid]

    def _value(self, t):
        a, op = self.a, t.op
        if op == "const":
            v = t.args[0]
            if isinstance(v, bool) or not isinstance(v, (int, float)) or v != v or v in (float("inf"), float("-inf")):
                raise Unknown("constant")
            return number(v)
        if op == "sym":
            return a.atom("sym", t.args[0] if isinstance(t.args[0], str) else t.uid)
        if op == "bin":
            return self.arith(t.args[0], t.args[1], t.args[2])
        if op == "un":
            v = self.value(t.args[1])
            if t.args[0] in ("-", "neg", "USub"):
                return a.neg(v)
            if t.args[0] in ("+", "pos", "UAdd"):
                return v
            raise Unknown(op)
        if op == "phi":
            return self.value(t.args[1] if self.truth(t.args[0]) else t.args[2])
        if op == "sub":
            return self.value(t.args[0]) if self._axes(t.args[1]) else self._unknown(op)
        if op in ("list", "tuple"):
            if len(t.kids()) == 1:
                return self.value(t.kids()[0])
            raise Unknown(op)
        if op == "call":
            return self.call(t)
        raise Unknown(op)

    def _unknown(self, op):
        raise Unknown(op)

    def _axes(self, i):
        """Indexes that only add axes or take everything."""
        if i.op == "slice":
            return True
        if i.op == "const" and i.args[0] is None or i.op == "ext" and i.args[0] == "numpy.newaxis":
            return True
        if i.op == "const" and i.args[0] is Ellipsis:
            return True
        return i.op == "tuple" and all(self._axes(x) for x in i.kids())

    def arith(self, o, x, y):
        a = self.a
        o = _BIN.get(o, o)
        x, y = self.value(x), self.value(y)
        if o == "+":
            return a.add(x, y)
        if o == "-":
            return a.sub(x, y)
        if o == "*":
            return a.mul(x, y)
        if o == "/":
            return a.div(x, y)
        if o == "**":
            if not y[1] and not y[2]:
                return a.power(x, y[0])
            return a.exp(a.mul(y, a.log(x)))
        raise Unknown(o)

    def call(self, t):
        a, q = self.a, t.args[0]
        args = [x for x in t.kids() if x.op != "kw"]
        if q in FUNCS and len(args) == 1:
            return a.apply(FUNCS[q], self.value(args[0]))
        if q in SAME and args:
            v, rest = self.value(args[0]), [x.args[-1] if x.op == "kw" else x for x in t.kids()[1:]]
            typed = q not in ("meth.reshape", "numpy.reshape") and any(_integer(x) for x in rest)
            return a.fn("integer part", v) if typed else v
        if q in ARITH and len(args) == 2:
            return self.arith(ARITH[q], args[0], args[1])
        if q == "numpy.where" and len(args) == 3:
            return self.value(args[1] if self.truth(args[0]) else args[2])
        if q in ("numpy.minimum", "numpy.maximum", "builtins.min", "builtins.max", "min", "max") and len(args) == 2:
            return self._limit(q, self._guard(args[0]), self._guard(args[1]))
        if q in ("numpy.clip", "meth.clip") and len(args) == 3:
            v = self.value(args[0])
            for how, lim in (("max", args[1]), ("min", args[2])):
                if not (lim.op == "const" and lim.args[0] is None):
                    v = self._limit(how, v, self._guard(lim))
            return v
        if q in _ROUND and args:
            return a.fn("integer part", self.value(args[0]))
        for m in ("ppf", "cdf"):
            if q == "meth." + m and len(args) == 2:
                d = self.resolve(args[0])
                sym = d.op == "call" and d.args[0] in SYMMETRIC and not any(True for _ in d.kids())
                other = "cdf" if m == "ppf" else "ppf"
                mirror = None if not sym else (F(1), F(0)) if m == "ppf" else (F(0), F(1))
                return a.fn(m, self.value(args[1]), extra=d.uid, inverse=other, mirror=mirror)
            for lib in SYMMETRIC:
                if q == "%s.%s" % (lib, m) and len(args) == 1:
                    other = "cdf" if m == "ppf" else "ppf"
                    mirror = (F(1), F(0)) if m == "ppf" else (F(0), F(1))
                    return a.fn(m, self.value(args[0]), extra=lib, inverse=other, mirror=mirror)
        raise Unknown(q)

    def resolve(self, t):
        n = 0
        while t.op == "phi" and n < 50:
            t = t.args[1] if self.truth(t.args[0]) else t.args[2]
            n += 1
        return t

    def _limit(self, how, x, y):
        s = self.a.sign(self.a.sub(x, y))
        return (x if s < 0 else y) if how.rpartition(".")[2].startswith("min") else (x if s > 0 else y)

    def _guard(self, t):
        """A limit next to a whole number only guards against the end of the range."""
        if t.op == "const" and isinstance(t.args[0], float) and 0 < abs(t.args[0] - round(t.args[0])) <= 1e-6:
            return number(round(t.args[0]))
        return self.value(t)

    def truth(self, c):
        if c.op == "const":
            return bool(c.args[0])
        if c.op == "not":
            return not self.truth(c.args[0])
        if c.op == "truth":
            return self._truth1(c.args[0], c)
        if c.op == "and":
            return all([self.truth(x) for x in c.kids()])
        if c.op == "or":
            return any([self.truth(x) for x in c.kids()])
        if c.op == "phi":
            return self.truth(c.args[1] if self.truth(c.args[0]) else c.args[2])
        if c.op == "cmp":
            o, x, y = c.args[0], c.args[1], c.args[2]
            names = any(z.op == "const" and not isinstance(z.args[0], (int, float)) for z in (x, y))
            if o in ("<", "<=", "==", "!=", ">", ">=") and not names:
                try:
                    x, y = self.value(x), self.value(y)
                except Unknown:
                    return self._ask(c)
                s = self.a.sign(self.a.sub(x, y))
                return {"<": s < 0, "<=": s <= 0, "==": s == 0, "!=": s != 0, ">": s > 0, ">=": s >= 0}[o]
        return self._ask(c)

    def _truth1(self, t, c):
        if t.op in ("cmp", "not", "and", "or", "truth"):
            return self.truth(t)
        if t.op == "call" and t.args[0] in ("numpy.isclose", "math.isclose", "numpy.allclose", "numpy.equal"):
            return self.truth(T("cmp", "==", t.args[1], t.args[2]))
        return self._ask(c)

    def _ask(self, c):
        # a question about an option may have either answer, one about computed values has no model
        if _computed(c):
            raise Unknown("condition " + show(c, 3))
        return self.a._ask(("truth", c.uid), (True, False))
