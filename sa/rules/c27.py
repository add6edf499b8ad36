"""C27: smoothers draw the values of bins towards what they are documented to, with the documented strength."""
from fractions import Fraction as F

from .. import world
from ..algebra import ONE, ZERO, Algebra, Reader, TooLarge, Undefined, Unknown, cases, number
from ..framework import parallel
from ..terms import T, show, walk

PRIOR = "drawn-to-prior-expectation"
MEAN = "drawn-to-weighted-mean"
LINE = "weighted-least-squares-line"
PERIOD = "season-repeats"
MONOTONE = "monotone-and-flat-outside"
WEIGHTS = "uncertain-bins-weigh-less"

ROWS = {"numpy.sum", "meth.sum", "numpy.nansum", "builtins.sum", "math.fsum"}
DOTS = {"numpy.dot", "meth.dot", "numpy.inner", "numpy.vdot", "numpy.matmul"}
NEAR = {"numpy.convolve", "scipy.signal.convolve"}
MANY = 7
OWN = (T("sym", "y"), T("sym", "est"))


class Table(Reader):
    """Reads the values of bins, elementwise, with sums over all bins and over neighbouring bins."""

    def __init__(self, alg, known, it, none=True, rows=()):
        Reader.__init__(self, alg, known)
        self.it, self.none = it, none
        self.rows = {v[1][0][0] for v in rows}
        self.open, self.trig, self.at, self.deep = set(), {}, set(), 0

    def inside(self, t):
        """The argument of a sum."""
        self.deep += 1
        try:
            return self.value(t)
        finally:
            self.deep -= 1

    def row(self, v):
        return self.a.occurs(v, lambda j: j in self.rows)

    def total(self, v, kind="sum", extra=None):
        a, out = self.a, ZERO
        varies = lambda j: j in self.rows or a.atoms[j][0] == "near"
        for c, (mono, below) in a.terms_of(v):
            outer, inner, div, per = {}, [], [], []
            for i, e in mono:
                if a.within(i, varies):
                    inner.append((i, e))
                else:
                    outer[i] = e
            for q, e in below:
                (per if a._in_sums([q], varies) else div).append((q, e))
            positive = all(i in a.positive or e.denominator == 1 and e % 2 == 0 for i, e in inner)
            positive = positive and all(a._way(q) > 0 or e % 2 == 0 for q, e in per)
            s = a.atom(kind, (tuple(inner), tuple(per), extra), positive)
            f = a._norm(c, outer, dict(div))
            out = a.add(out, a.mul(f, s))
        return out

    def fixed(self, v):
        """The value at one bin, the same for all terms of a sum over bins."""
        a, out = self.a, ZERO

        def atom(i, e):
            kind, data = a.atoms[i]
            if i in self.rows or kind == "near":
                return a.power(a.atom("at", i, i in a.positive), e)
            return a._norm(F(1), {i: e}, {})

        def product(c, mono):
            r = number(c)
            for i, e in mono:
                r = a.mul(r, atom(i, e))
            return r
        for c, (mono, below) in a.terms_of(v):
            r = product(c, mono)
            for q, e in below:
                s = ZERO
                for k, d in q:
                    s = a.add(s, product(d, k))
                r = a.mul(r, a.power(s, e))
            out = a.add(out, r)
        return out

    def _value(self, t):
        op = t.op
        if op == "len":
            return number(MANY)
        if op == "ext" and t.args[0] in ("numpy.pi", "math.pi"):
            return self.a.symbol("pi", positive=True)
        if op == "sub":
            if t.args[1].uid in self.at:
                v = self.value(t.args[0])
                return self.fixed(v) if self.deep else v
            if t.args[0].op == "attr" and t.args[0].args[1] == "shape" and t.args[1] is T("const", 0):
                return number(MANY)
        if op == "mu":
            return self.filled(t)
        if op == "upd" and t.args[1].uid in self.at:
            return self.value(t.args[2])
        if op == "upd" and t.args[1].op in ("cmp", "and", "or", "not") and len(t.args) == 3:
            return self.value(t.args[2] if self.truth(t.args[1]) else t.args[0])
        return Reader._value(self, t)

    def filled(self, t):
        """An array filled element by element in a loop over all bins."""
        found = self.it.mu.get(t)
        if not found or t.uid in self.open:
            raise Unknown("loop")
        nxt = found[1]
        if not isinstance(nxt, T) or nxt.op != "upd" or nxt.args[0] is not t:
            raise Unknown("loop")
        idx, val = nxt.args[1], nxt.args[2]
        if idx.op not in ("elem", "sym", "mu", "any", "sub") or any(x is t for x in walk(val)):
            raise Unknown("loop")
        self.open.add(t.uid)
        self.at.add(idx.uid)
        deep, self.deep = self.deep, 0
        try:
            return self.value(val)
        finally:
            self.deep = deep

    def arith(self, o, x, y):
        if o in ("MatMult", "@"):
            return self.dot(self.inside(x), self.inside(y))
        return Reader.arith(self, o, x, y)

    def dot(self, x, y):
        if not (self.row(x) and self.row(y)):
            raise Unknown("dot")
        return self.total(self.a.mul(x, y))

    def call(self, t):
        q = t.args[0]
        args = [x for x in t.kids() if x.op != "kw"]
        kws = {x.args[0]: x.args[-1] for x in t.kids() if x.op == "kw"}
        plain = not [k for k in kws if k not in ("axis", "dtype", "weights", "mode")]
        if q in ROWS and len(args) == 1 and plain:
            v = self.inside(args[0])
            if v[0] and not self.row(v):
                raise Unknown(q)
            return self.total(v)
        if q in ("numpy.mean", "meth.mean") and len(args) == 1:
            return self.a.mul(self.total(self.inside(args[0])), number(F(1, MANY)))
        if q == "numpy.average" and args and plain:
            w = kws.get("weights") or (args[2] if len(args) > 2 else None)
            v = self.inside(args[0])
            if w is None:
                return self.a.mul(self.total(v), number(F(1, MANY)))
            w = self.inside(w)
            return self.a.div(self.total(self.a.mul(v, w)), self.total(w))
        if q in DOTS and len(args) == 2:
            return self.dot(self.inside(args[0]), self.inside(args[1]))
        if q in NEAR:
            mode = kws.get("mode") or (args[2] if len(args) > 2 else None)
            if mode is not T("const", "same") or len(args) < 2 or self.depends(args[1]):
                raise Unknown(q)
            return self.total(self.inside(args[0]), "near", args[1].uid)
        if q.rpartition(".")[2] in ("sin", "cos") and q.partition(".")[0] in ("numpy", "math") and len(args) == 1:
            return self.wave(q.rpartition(".")[2], self.value(args[0]))
        if q == "numpy.ascontiguousarray" and args:
            return self.value(args[0])
        if q in ("meth.predict",) and T("sym", "est") in args:
            return self.known["value"]
        return Reader.call(self, t)

    def wave(self, name, v):
        """Whole turns do not change a wave."""
        a, rest = self.a, ZERO
        pi = a.symbol("pi", positive=True)[1]
        for c, (mono, below) in a.terms_of(v):
            if not (mono == pi and not below and c % 2 == 0):
                rest = a.add(rest, a._norm(c, dict(mono), dict(below)))
        self.trig.setdefault((name, rest), v)
        return a.atom("wave", (name, rest))

    def depends(self, t):
        if t.uid not in self.inner:
            self.inner[t.uid] = any(x.uid in self.known or x.op == "mu" for x in walk(t)) or (
                "value" in self.known and any(x.op == "call" and x.args[0] == "meth.predict" for x in walk(t)))
        return self.inner[t.uid]

    def _truth1(self, t, c):
        if t.op == "call" and t.args[0] in ("numpy.allclose", "numpy.isclose", "numpy.array_equal"):
            return False
        return Reader._truth1(self, t, c)

    def _ask(self, c):
        if c.op == "cmp" and c.args[0] in ("is", "is not") and T("const", None) in c.args[1:]:
            return self.none is (c.args[0] == "is")
        if c.op == "cmp" and c.args[0] in ("is", "is not", "==", "!=") and T("const", True) in c.args[1:]:
            return c.args[0] in ("is", "==")
        if c.op == "truth" and c.args[0] is T("sym", "fallback_when_negative_slope"):
            return True
        if c.op == "cmp" and c.args[0] in ("==", "!=") and any(x.op == "attr" and x.args[1] in ("shape", "size", "ndim")
                                                               for x in c.args[1:]):
            return c.args[0] == "=="
        return Reader._ask(self, c)


def column(x, name):
    """Number of a column of the argument: X[:, k]."""
    if x.op == "sub" and x.args[0] is T("sym", name) and x.args[1].op == "tuple" and len(x.args[1].kids()) == 2:
        first, k = x.args[1].kids()
        if first.op == "slice" and k.op == "const" and isinstance(k.args[0], int):
            return k.args[0]
    return None


def columns(terms, name):
    out = {}
    for t in terms:
        for x in walk(t):
            k = column(x, name)
            if k is not None:
                out.setdefault(k, []).append(x)
    return out


def table(t):
    """The values of bins that are looked up in a prediction: v[f(new X)] with v of the training."""
    out = []
    for x in walk(t):
        if x.op == "sub" and _new(x.args[1]) and not _new(x.args[0]) and any(y in OWN for y in walk(x.args[0])):
            if x.args[0] not in out:
                out.append(x.args[0])
    return [x for x in out if not any(x is not y and any(z is x for z in walk(y)) for y in out)]


def _new(t):
    return any(x.op == "sym" and isinstance(x.args[0], str) and x.args[0].startswith("new ") for x in walk(t))


def decide(compute):
    """The first complaint over all cases; Unknown only if no case complains."""
    def one(answers):
        a = Algebra(answers)
        try:
            return a.calculate(lambda: compute(a))
        except Unknown as e:
            return e
    found = [r for _, r in cases(one) if r is not None]
    for r in sorted(found, key=lambda r: isinstance(r, Unknown)):
        if isinstance(r, Unknown):
            raise r
        return r
    return None


def settled(rep, rule, what, loc, compute):
    try:
        bad = decide(compute)
    except (Unknown, Undefined, TooLarge) as e:
        rep.skipped(what, "no model (%s)" % e)
        return
    rep.ok(rule, what)
    if bad:
        rep.add(rule, what, loc, bad[:220])


def trained(p, cls):
    life = world.Life(p, cls)
    life.construct()
    _, st, fit = life.run("fit", True)
    v, st, pred = life.run("predict", True, prefix="new ")
    return life, life.it.term(v, st), fit + pred


def given(a, tables, several):
    """Known terms and symbols: value of a bin, its uncertainty and the other columns."""
    known, rows = {}, []
    for k, xs in columns(tables, "X_for_smoother").items():
        uncertain = k == -1 or not several and k == 2
        v = a.symbol("u", positive=True) if uncertain else a.symbol("column %d" % k)
        rows.append(v)
        for x in xs:
            known[x.uid] = v
    return known, rows


def prior(rep, who, loc, life, tab, several, expected):
    """The prior expectation within the threshold, else the value with its significance lowered."""
    t, u = "threshold", "u"
    for name, inside in (("within the threshold", True), ("beyond the threshold", False)):
        for way in (1, -1):
            def compute(a):
                known, rows = given(a, tab, several)
                lim, e, unc = a.symbol(t, positive=True), a.symbol("e", positive=True), a.symbol(u, positive=True)
                m = a.symbol("m") if expected is None else number(expected)
                s = a.div(lim, a.add(ONE, e)) if inside else a.add(lim, e)
                x = a.add(m, a.mul(number(way), a.mul(unc, s)))
                known.update({T("sym", t).uid: lim, T("sym", "y").uid: x, "value": x})
                if expected is None:
                    known[T("sym", "prior_expectation").uid] = m
                r = Table(a, known, life.it).value(tab[0])
                if inside:
                    want = m
                else:
                    root = a.power(a.add(a.mul(number(2), a.mul(lim, e)), a.mul(e, e)), F(1, 2))
                    want = a.add(m, a.mul(number(way), a.mul(unc, root)))
                if a.equal(r, want):
                    return None
                return "a value %s of the prior expectation becomes %s instead of %s" % (name, a.show(r), a.show(want))
            side = "above" if way > 0 else "below"
            settled(rep, PRIOR, "%s: value %s the prior expectation, %s" % (who, side, name), loc, compute)


def mean(rep, who, loc, life, tab, several, near):
    """Mean of value and common mean, weighted with the inverse variances of both."""
    for none in ((True,) if near else (True, False)):
        def compute(a):
            known, rows = given(a, tab, several)
            x, u = a.symbol("x"), a.symbol("u", positive=True)
            known[T("sym", "y").uid] = x
            m = a.symbol("m")
            known[T("sym", "prior_prediction").uid] = m
            rd = Table(a, known, life.it, none, rows + [x])
            r = rd.fixed(rd.value(tab[0]))
            kinds = [("sum", None)]
            if near:
                kinds = sorted({(k, d[2]) for k, d in a.atoms if k == "near"}) or kinds
            if len(kinds) != 1:
                return "sums over different neighbourhoods"
            w = a.power(u, F(-2))
            s = lambda v: rd.fixed(rd.total(v, *kinds[0]))
            if none:
                m = a.div(s(a.mul(w, x)), s(w))
            d = a.sub(x, m)
            v = a.div(s(w), s(a.mul(w, a.mul(d, d))))
            w, x = rd.fixed(w), rd.fixed(x)
            want = a.div(a.add(a.mul(w, x), a.mul(v, m)), a.add(w, v))
            if a.equal(r, want):
                return None
            return "the value becomes %s instead of %s" % (a.show(r), a.show(want))
        settled(rep, MEAN, "%s: %s" % (who, "own mean" if none else "given mean"), loc, compute)


def line(rep, who, loc, life, t):
    """The residuals of the line, and their products with the position, sum up to zero."""
    for what, power in (("residuals", 0), ("residuals times position", 1)):
        def compute(a):
            x, u, y = a.symbol("x"), a.symbol("u", positive=True), a.symbol("y")
            eps = a.symbol("epsilon", positive=True)
            base = {T("sym", "y").uid: y, T("sym", "epsilon").uid: eps}
            rows = [x, u, y]
            for k, xs in columns([t], "X_for_smoother").items():
                v = x if k == 0 else u if k in (2, -1) else a.symbol("column %d" % k)
                rows.append(v)
                base.update({z.uid: v for z in xs})
            new = [z for xs in columns([t], "new X").values() for z in xs]
            if not new:
                raise Unknown("prediction")

            def at(v):
                return Table(a, {**base, **{z.uid: v for z in new}}, life.it, True, rows).value(t)
            z = a.symbol("z")
            p0, p1, pz = at(ZERO), at(ONE), at(z)
            slope = a.sub(p1, p0)
            if not a.equal(pz, a.add(p0, a.mul(slope, z))):
                return "no line: %s" % a.show(pz)
            rd = Table(a, base, life.it, True, rows)
            w = a.power(a.add(a.mul(u, u), eps), F(-1))
            xp = a.power(x, F(power)) if power else ONE
            s = lambda v: rd.total(a.mul(w, a.mul(v, xp)))
            left = a.sub(s(y), a.add(a.mul(p0, s(ONE)), a.mul(slope, s(x))))
            if a.equal(left, ZERO):
                return None
            return "the weighted %s of the line do not sum up to zero" % what
        settled(rep, LINE, "%s: %s" % (who, what), loc, compute)


def period(rep, who, loc, life, t, fit):
    """The curve repeats after as many bins as there are, and is evaluated where it was fitted."""
    def compute(a):
        new = [z for xs in columns([t], "new X").values() for z in xs]
        if not new:
            raise Unknown("prediction")
        z = a.symbol("z")
        rd = Table(a, {x.uid: z for x in new}, life.it)
        r0 = rd.value(t)
        r1 = Table(a, {x.uid: a.add(z, number(MANY)) for x in new}, life.it).value(t)
        if not a.equal(r0, r1):
            return "the curve does not repeat after the number of bins: %s" % ", ".join(
                "%s(%s)" % (n, a.show(v)) for (n, v) in sorted(rd.trig, key=str))
        for e in fit:
            if e.kind != "call" or not str(e.data.get("q")).endswith("curve_fit"):
                continue
            x = e.data["kterms"].get("xdata")
            x = x if x is not None else (e.data["terms"] + [None] * 2)[1]
            if x is None:
                continue
            cols = columns([x], "X_for_smoother")
            v = Table(a, {y.uid: z for xs in cols.values() for y in xs}, life.it).value(x)
            for (n, _), arg in rd.trig.items():
                k = a.div(arg, v)
                if k[1] or k[2] or k[0].denominator != 1:
                    return "the curve is evaluated at %s but was fitted at %s" % (a.show(arg), a.show(v))
        return None
    settled(rep, PERIOD, "%s: prediction" % who, loc, compute)


def monotone(rep, who, t, fit):
    """Monotone in the direction asked for, constant beyond the first and last bin."""
    made = [x for x in walk(t) if x.op == "call" and x.args[0].endswith(".IsotonicRegression")]
    for x in made:
        kws = {k.args[0]: k.args[-1] for k in x.kids() if k.op == "kw"}
        pos = [k for k in x.kids() if k.op != "kw"]
        loc = next((e.loc() for e in fit if e.kind == "call" and str(e.data.get("q")) == x.args[0]), "")
        inc = kws.get("increasing") or (pos[2] if len(pos) > 2 else T("const", True))
        for rule, good, text in (
                ("direction", inc is T("sym", "increasing"), "the direction asked for is not used: %s" % show(inc, 3)),
                ("outside", kws.get("out_of_bounds") is T("const", "clip"), "values outside the bins of the training are not "
                 "those of the first and last bin")):
            rep.ok(MONOTONE, "%s: %s" % (who, rule))
            if not good:
                rep.add(MONOTONE, "%s: %s" % (who, rule), loc, text)


def rising(rep, who, life, t, loc):
    """No falling line where none is asked for: the line is replaced just if its slope is negative."""
    lines = [x for x in walk(t) if x.op == "call" and x.args[0] == "numpy.polyfit" and _degree(x) is not T("const", 0)]
    flats = [x for x in walk(t) if x.op == "call" and x.args[0] == "numpy.polyfit" and _degree(x) is T("const", 0)]
    used = [x for x in walk(t) if x.op == "phi" and any(y in lines for y in walk(x))
            and any(y in flats for y in (x.args[1], x.args[2]))]
    if len(lines) != 1 or len(flats) != 1 or not used:
        rep.skipped(who, "no alternative to a falling line")
        return
    used = max(used, key=lambda x: sum(1 for _ in walk(x)))
    for name, slope, want in (("falling", -1, flats[0]), ("rising", 1, lines[0])):
        def compute(a):
            v = a.mul(number(slope), a.symbol("slope", positive=True))
            first = [T("sub", lines[0], T("const", 0))]
            other = [T("sub", lines[0], T("const", k)) for k in (1, -1, -2)]
            known = {x.uid: v for x in first}
            known.update({x.uid: a.symbol("offset") for x in other})
            known[T("sub", lines[0], T("const", -2)).uid] = v
            r = Table(a, known, life.it).resolve(used)
            return None if r is want else "a %s line becomes %s" % (name, show(r, 3))
        settled(rep, MONOTONE, "%s: %s line" % (who, name), loc, compute)


def _degree(x):
    pos = [k for k in x.kids() if k.op != "kw"]
    kws = {k.args[0]: k.args[-1] for k in x.kids() if k.op == "kw"}
    return kws.get("deg") or (pos[2] if len(pos) > 2 else None)


def flat(rep, who, life, t, loc):
    """The argument of a polynomial is limited to the range of the training."""
    seen, bare, limits, stack = set(), [], [], [t]
    while stack:
        x = stack.pop()
        if x.uid in seen:
            continue
        seen.add(x.uid)
        if column(x, "new X") == 0:
            bare.append(x)
        elif _limits(x) and any(column(y, "new X") == 0 for y in walk(x)):
            limits.append(x)
        else:
            stack.extend(x.kids())
            nxt = life.it.mu.get(x) if x.op == "mu" else None
            stack.extend(y for y in (nxt or ()) if isinstance(y, T))
    what = "%s: argument outside the training" % who
    if not limits and not bare:
        rep.skipped(what, "argument not found")
        return
    if bare:
        rep.ok(MONOTONE, what)
        rep.add(MONOTONE, what, loc, "the argument is not limited to the range of the training")
        return
    for n, x in enumerate(limits):
        for below in (True, False):
            def compute(a):
                lo, e = a.symbol("lo"), a.symbol("e", positive=True)
                hi = a.add(lo, a.symbol("d", positive=True))
                known = {}
                for y in walk(x):
                    if y.op == "call" and any(column(z, "X_for_smoother") == 0 for z in walk(y)) and not _new(y):
                        short = y.args[0].rpartition(".")[2]
                        if short in ("nanmin", "min", "amin"):
                            known[y.uid] = lo
                        elif short in ("nanmax", "max", "amax"):
                            known[y.uid] = hi
                z = a.sub(lo, e) if below else a.add(hi, e)
                known.update({y.uid: z for y in walk(x) if column(y, "new X") == 0})
                v = Table(a, known, life.it).value(x)
                return None if a.equal(v, lo if below else hi) else "the argument becomes %s" % a.show(v)
            settled(rep, MONOTONE, "%s %s" % (what, "below" if below else "above"), loc, compute)


def _limits(x):
    if x.op == "upd":
        return len(x.args) == 3 and x.args[1].op in ("cmp", "and", "or", "not") and any(column(y, "new X") == 0 for y in walk(x.args[0]))
    return x.op == "call" and x.args[0].rpartition(".")[2] in ("clip", "minimum", "maximum", "where")


ASKED = {"numpy.polyfit": ("w", 5), "scipy.optimize.curve_fit": ("sigma", 4), "scipy.interpolate.UnivariateSpline": ("w", 2),
         "scipy.interpolate.LSQUnivariateSpline": ("w", 3)}


def weights(rep, who, life, fit):
    """The weights of bins in a fit fall with the uncertainty or rise with the weight of the bin."""
    for e in fit:
        if e.kind == "call" and e.data.get("q") in ASKED:
            name, n = ASKED[e.data["q"]]
        elif e.kind == "mcall" and e.data.get("name") == "fit" and "sample_weight" in (e.data.get("kterms") or {}):
            name, n = "sample_weight", 99
        else:
            continue
        terms = e.data.get("terms") or []
        w = e.data["kterms"].get(name) or (terms[n] if len(terms) > n else None)
        what = "%s: %s" % (who, name if name == "sample_weight" else "%s of %s" % (name, e.data["q"].rpartition(".")[2]))
        if w is None:
            rep.ok(WEIGHTS, what)
            rep.add(WEIGHTS, what, e.loc(), "the bins are not weighted")
            continue
        cols = columns([w], "X_for_smoother")

        def compute(a):
            ks = set(cols)
            if len(ks) != 1:
                return "the weights depend on the columns %s" % sorted(ks)
            k = ks.pop()
            c, d = a.symbol("c", positive=True), a.symbol("d", positive=True)
            lo = Table(a, {x.uid: c for x in cols[k]}, life.it).value(w)
            hi = Table(a, {x.uid: a.add(c, d) for x in cols[k]}, life.it).value(w)
            s = a.sign(a.sub(hi, lo))
            rises = k in (2, -1) if name == "sigma" else k in (1, -2)
            if k not in (1, 2, -1, -2):
                return "the weights are those of column %d" % k
            return None if s == (1 if rises else -1) else "bins of higher %s weigh %s" % (
                "weight" if k in (1, -2) else "uncertainty", "less" if k in (1, -2) else "more or the same")
        settled(rep, WEIGHTS, what, e.loc(), compute)


def check(rep, p, cls):
    who = world.short(cls)
    name, several = cls.name, ".multidim" in "." + who
    life, t, events = trained(p, cls)
    loc = life.it.method(cls, "fit").loc()
    weights(rep, who, life, events)
    monotone(rep, who, t, events)
    if name in ("RegularizeToPriorExpectationSmoother", "RegularizeToOneSmoother", "PriorExpectationMetaSmoother"):
        tab = table(t)
        if len(tab) != 1:
            rep.skipped(who, "%d tables of values" % len(tab))
        else:
            prior(rep, who, loc, life, tab, several, 1 if name.startswith("RegularizeToOne") else None)
    elif name.startswith("WeightedMeanSmoother"):
        tab = table(t)
        if len(tab) != 1:
            rep.skipped(who, "%d tables of values" % len(tab))
        else:
            mean(rep, who, loc, life, tab, several, name.endswith("Neighbors"))
    elif name == "LinearExtrapolator":
        line(rep, who, loc, life, t)
    elif name == "LinearSmoother":
        rising(rep, who, life, t, loc)
    elif name == "OrthogonalPolynomialSmoother":
        flat(rep, who, life, t, loc)
    elif name == "SeasonalSmoother":
        period(rep, who, loc, life, t, events)


def run(p, rep, tier):
    rep.rule(PRIOR, "a value within the threshold becomes the prior expectation, another keeps its side with lowered significance")
    rep.rule(MEAN, "a value becomes its mean with the common mean, weighted with inverse variances")
    rep.rule(LINE, "the residuals of an extrapolated line, weighted with inverse squared uncertainties, are orthogonal to the line")
    rep.rule(PERIOD, "a seasonal curve repeats after as many bins as it was trained with and is evaluated where it was fitted")
    rep.rule(MONOTONE, "a monotone regression has the direction asked for and is constant outside the bins of the training, "
             "a falling line is replaced if asked for, and the argument of a polynomial stays in the range of the training")
    rep.rule(WEIGHTS, "the weights of bins in a fit fall with their uncertainty or rise with their weight")
    items = world.smoothers(p)
    rep.count("smoothers", len(items))
    parallel(rep, p, items, check, world.short)
    for rule, n in ((PRIOR, 12), (MEAN, 3), (LINE, 1), (PERIOD, 1), (MONOTONE, 1), (WEIGHTS, 4)):
        rep.floor(rule, n)
