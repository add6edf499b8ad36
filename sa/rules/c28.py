"""C28: what training learns for a bin is the documented estimate from the rows of the bin; losses are the documented ones."""
from fractions import Fraction as F

from .. import world
from ..algebra import ONE, ZERO, TooLarge, Undefined, Unknown, number
from ..framework import parallel
from ..state import K
from ..terms import T, show, walk
from .c27 import MANY, Table, decide

FACTOR = "estimate-from-rows-of-bin"
SPREAD = "uncertainty-of-estimate"
LOSS = "documented-loss"
MODEL = "estimate-fits-link"
START = "starts-at-weighted-mean"
PRIOR = "#prior"

BINS = T("attr", T("sym", "feature"), "lex_binned_data")


class Rows(Table):
    """Row by row; sums over the rows of a bin are atoms of kind 'bin', those over all rows of kind 'sum'."""

    def __init__(self, alg, known, it, rows, prefit=None, binary=None):
        Table.__init__(self, alg, known, it, True, rows)
        self.prefit, self.huge = prefit, False
        self.binary = binary[1][0][0] if binary is not None else None

    def total(self, v, kind="sum", extra=None):
        if self.binary is None:
            return Table.total(self, v, kind, extra)
        a, out = self.a, ZERO
        for c, (mono, below) in a.terms_of(v):
            m = {i: F(1) if i == self.binary and e >= 1 else e for i, e in mono}
            out = a.add(out, a._norm(c, m, dict(below)))
        return Table.total(self, out, kind, extra)

    def depends(self, t):
        if t.uid not in self.inner:
            self.inner[t.uid] = any(x.uid in self.known or x.op == "mu" or x is T("sym", "prefit_data") for x in walk(t))
        return self.inner[t.uid]

    def _value(self, t):
        a, op = self.a, t.op
        if t is T("sym", "prefit_data") and self.prefit is not None:
            return self.value(self.prefit)
        if op == "sub":
            base, idx = t.args
            if base is T("sym", "prefit_data") and idx.op == "const" and self.prefit is not None and self.prefit.op == "tuple":
                return self.value(self.prefit.kids()[idx.args[0]])
            if idx is BINS:
                return self.value(base)
            if idx.op in ("cmp", "and", "or", "not") or idx.op == "call" and idx.args[0] == "numpy.isfinite":
                return self.value(base)
        if op == "upd" and len(t.args) == 3 and t.args[1].op in ("call", "truth"):
            return self.value(t.args[2] if self.truth(t.args[1]) else t.args[0])
        if op in ("cmp", "and", "or", "not"):
            return ONE if self.truth(t) else ZERO
        return Table._value(self, t)

    def call(self, t):
        q = t.args[0]
        args = [x for x in t.kids() if x.op != "kw"]
        kws = {x.args[0]: x.args[-1] for x in t.kids() if x.op == "kw"}
        if q == "numpy.bincount":
            if not args or args[0] is not BINS:
                raise Unknown(q)
            w = kws.get("weights") or (args[1] if len(args) > 1 else None)
            return self.total(ONE if w is None else self.inside(w), "bin")
        if q == "numpy.where" and len(args) == 3 and args[0] is T("sym", "y") and self.binary is not None:
            y = self.value(args[0])
            return self.a.add(self.a.mul(y, self.value(args[1])), self.a.mul(self.a.sub(ONE, y), self.value(args[2])))
        if q in ("numpy.ones_like", "numpy.isfinite"):
            return ONE
        if q in ("numpy.zeros_like", "numpy.zeros"):
            return ZERO
        short = q.rpartition(".")[2]
        if q == "scipy.special.gammaincinv" and len(args) == 2:
            return self.a.fn("gammaincinv", self.value(args[0]), extra=args[1].uid)
        if short in ("lgamma", "gammaln", "erfinv") and len(args) == 1:
            return self.a.fn("lgamma" if short == "gammaln" else short, self.value(args[0]))
        if q == "meth.ppf" and len(args) == 2:
            return self.a.fn("ppf", self.value(args[1]), extra=args[0].uid)
        return Table.call(self, t)

    def truth(self, c):
        if c.op == "cmp" and c.args[0] in ("<", "<=", ">", ">="):
            for k, less in ((2, True), (1, False)):
                x = c.args[k]
                if x.op == "const" and isinstance(x.args[0], (int, float)) and (x.args[0] >= 1e9 and not self.huge or 0 < x.args[0] <= 1e-4):
                    # neither huge nor tiny
                    return c.args[0] in (("<", "<=") if less is (x.args[0] > 1) else (">", ">="))
                if x.op == "const" and isinstance(x.args[0], (int, float)) and x.args[0] >= 1e9:
                    return c.args[0] not in (("<", "<=") if less else (">", ">="))
        if self.binary is not None and c.op == "cmp" and c.args[0] in ("<", "<=", ">", ">="):
            # sums of weights of events
            for k in (1, 2):
                if c.args[k] in (T("const", 0), T("const", 0.0)):
                    return c.args[0] in (("<", "<=") if k == 1 else (">", ">="))
        if c.op == "call" and c.args[0] in ("numpy.isfinite", "math.isfinite"):
            return True
        if c.op == "call" and c.args[0] in ("numpy.isnan", "numpy.isinf", "math.isnan"):
            return False
        return Table.truth(self, c)

    def _truth1(self, t, c):
        if t.op == "call" and t.args[0] in ("numpy.isfinite", "math.isfinite", "numpy.isnan", "numpy.isinf"):
            return self.truth(t)
        return Table._truth1(self, t, c)


class Case(object):
    """Symbols of one model: target, weight and prediction without the feature."""

    def __init__(self, a, it, link, prefit, known=(), binary=False):
        self.a = a
        self.y, self.w = a.symbol("y", positive=not binary), a.symbol("w", positive=True)
        self.p = a.symbol("p", positive=True)
        if link == "logit":
            a.assume_positive(a.sub(ONE, self.p))
            at = a.sub(a.log(self.p), a.log(a.sub(ONE, self.p)))
        else:
            at = a.log(self.p) if link == "log" else self.p
        self.known = {T("sym", "y").uid: self.y, T("sym", "self weights").uid: self.w,
                      T("call", "meth.predict_link", T("sym", "pred")).uid: at}
        self.named = {}
        for n in known:
            self.named[n] = a.symbol(n, positive=True)
            self.known[T("sym", n).uid] = self.named[n]
        self.read = Rows(a, self.known, it, [self.y, self.w, self.p], prefit, self.y if binary else None)

    def bin(self, v):
        return self.read.total(v, "bin")

    def all(self, v):
        return self.read.total(v, "sum")


def _differs(c, got, want, what):
    if c.a.equal(got, want):
        return None
    return "%s is %s instead of %s" % (what, c.a.show(got), c.a.show(want))


def gamma(named, part):
    """Median of the posterior gamma distribution of a factor."""
    def compute(c, pair):
        a = c.a
        scale = ONE if not named else a.div(ONE, a.add(c.named["a"], a.mul(c.named["c"], c.p)))
        up, down = c.bin(a.mul(a.mul(c.w, c.y), scale)), c.bin(a.mul(a.mul(c.w, c.p), scale))
        shape = a.add(up, number(2))
        c.read.huge = part == 2
        if part != 1:
            # the prior has median one: a bin without rows gets the neutral factor
            got = c.read.value(pair[0])
            best = None
            for prior in sorted({x.args[0] for x in walk(pair[0]) if x.op == "const" and isinstance(x.args[0], float)}):
                if abs(prior - 1.678347) < 1e-4:
                    best = prior
            if best is None:
                return "the prior of the factors does not have the median one"
            # that of a huge number of rows is the mean
            median = a.fn("gammaincinv", shape, extra=T("const", 0.5).uid) if part == 0 else shape
            want = a.sub(a.log(median), a.log(a.add(down, number(best))))
            return _differs(c, got, want, "the factor")
        want = a.power(a.sub(a.log(a.add(ONE, shape)), a.log(shape)), F(1, 2))
        return _differs(c, c.read.value(pair[1]), want, "the uncertainty")
    return compute


def location(part):
    """Mean of the residuals, weighted with weight and inverse variance."""
    def compute(c, pair):
        a = c.a
        var = c.read.value(c.read.prefit)
        w0 = number(F(1, 100))
        w = a.div(c.w, var)
        if part == 0:
            want = a.div(c.bin(a.mul(w, a.sub(c.y, c.p))), a.add(c.bin(w), w0))
            return _differs(c, c.read.value(pair[0]), want, "the summand")
        if part == 1:
            want = a.div(a.power(a.add(c.bin(a.mul(c.w, w)), w0), F(1, 2)), a.add(c.bin(w), w0))
            return _differs(c, c.read.value(pair[1]), want, "the uncertainty")
        mean = a.div(c.all(a.mul(c.w, c.y)), c.all(c.w))
        d = a.sub(c.y, mean)
        prior = a.div(c.all(a.mul(c.w, a.mul(d, d))), c.all(c.w))
        own = a.sub(c.y, a.div(c.bin(a.mul(c.w, c.y)), c.bin(c.w)))
        rest = c.bin(a.mul(c.w, a.mul(own, own)))
        wants = [a.div(a.add(x, rest), a.add(ONE, c.bin(c.w))) for x in (prior, ONE)]
        if any(a.equal(var, x) for x in wants):
            return None
        return "the variance of the target is %s instead of %s" % (a.show(var), a.show(wants[0]))
    return compute


def summand(part):
    """Sum of the weighted residuals over the enlarged sum of weights."""
    def compute(c, pair):
        a = c.a
        n = a.mul(c.w, a.sub(c.y, c.p))
        d = a.mul(c.w, a.add(ONE, c.named["regalpha"]))
        sn, sd = c.bin(n), a.add(c.bin(d), ONE)
        if part == 0:
            return _differs(c, c.read.value(pair[0]), a.div(sn, sd), "the summand")
        s = lambda x, y: c.bin(a.mul(x, y))
        top = a.add(a.sub(a.mul(a.mul(sd, sd), s(n, n)), a.mul(number(2), a.mul(a.mul(sn, sd), s(n, d)))),
                    a.mul(a.mul(sn, sn), a.add(s(d, d), ONE)))
        got = c.read.value(pair[1])
        return _differs(c, a.mul(got, got), a.div(top, a.power(sd, F(4))), "the squared uncertainty")
    return compute


def poisson(c, pair):
    """Mean of the residuals, drawn to zero."""
    a = c.a
    d = c.bin(a.div(c.w, c.p))
    s = a.div(c.bin(a.div(a.mul(c.w, a.sub(c.y, c.p)), c.p)), d)
    u = a.div(c.bin(a.div(a.mul(c.w, c.w), c.p)), d)
    mean = a.div(c.all(a.mul(c.w, c.y)), c.all(c.w))
    r = a.sub(c.y, mean)
    g = a.div(c.all(a.mul(c.w, a.mul(r, r))), c.all(c.w))
    k = a.div(c.bin(c.w), a.mul(u, u))
    want = a.div(a.mul(k, s), a.add(k, a.div(ONE, g)))
    return _differs(c, c.read.value(pair[0]), want, "the summand")


def logistic(part):
    """The normal distribution that shares two quantiles, after the link, with the posterior beta distribution."""
    def compute(c, pair):
        a = c.a
        dists, percs = [], []
        for x in walk(pair[0]):
            if x.op == "call" and x.args[0] == "meth.ppf":
                d, q = [k for k in x.kids() if k.op != "kw"][:2]
                if d not in dists:
                    dists.append(d)
                if q not in percs:
                    percs.append(q)
        if len(dists) != 1 or len(percs) != 2 or dists[0].op != "call" or dists[0].args[0] != "scipy.stats.beta":
            raise Unknown("quantiles")
        boost = a.add(a.mul(c.y, a.sub(ONE, c.p)), a.mul(a.sub(ONE, c.y), c.p))
        w = a.mul(c.w, boost)
        if part == 0:
            up, down = [c.read.value(x) for x in [k for k in dists[0].kids() if k.op != "kw"][:2]]
            prior = [a.sub(up, c.bin(a.mul(w, c.y))), a.sub(down, c.bin(a.mul(w, a.sub(ONE, c.y))))]
            if any(x[1] or x[2] or x[0] <= 0 for x in prior):
                return "the posterior is beta(%s, %s)" % (a.show(up), a.show(down))
            return None if prior[0] == prior[1] else "the prior of the factors is not symmetric"
        mu, sigma = c.read.value(pair[0]), c.read.value(pair[1])
        for q in percs:
            v = a.fn("ppf", c.read.value(q), extra=dists[0].uid)
            link = a.sub(a.log(v), a.log(a.sub(ONE, v)))
            z = a.mul(a.power(number(2), F(1, 2)), a.fn("erfinv", a.sub(a.mul(number(2), c.read.value(q)), ONE)))
            if not a.equal(a.add(mu, a.mul(sigma, z)), link):
                return "factor and uncertainty do not share the quantiles of the posterior"
        return None
    return compute


# class: link, options, [(rule, what, compute)], binary target
MODELS = {
    "CBPoissonRegressor": ("log", (), [(FACTOR, "factor", gamma(False, 0)),
                                          (FACTOR, "factor of many rows", gamma(False, 2)), (SPREAD, "uncertainty", gamma(False, 1))], False),
    "CBNBinomRegressor": ("log", ("a", "c"), [(FACTOR, "factor", gamma(True, 0)),
                                          (FACTOR, "factor of many rows", gamma(True, 2)), (SPREAD, "uncertainty", gamma(True, 1))], False),
    "CBLocationRegressor": ("identity", (), [(FACTOR, "summand", location(0)), (SPREAD, "uncertainty", location(1)),
                                             (SPREAD, "variance", location(2))], False),
    "CBGBSRegressor": ("identity", ("regalpha",), [(FACTOR, "summand", summand(0)), (SPREAD, "uncertainty", summand(1))], False),
    "CBLocPoissonRegressor": ("identity", (), [(FACTOR, "summand", poisson)], False),
    "CBClassifier": ("logit", (), [(FACTOR, "posterior", logistic(0)), (SPREAD, "matching", logistic(1))], True),
}


def settled(rep, rule, what, loc, compute):
    try:
        bad = decide(compute)
    except (Unknown, Undefined, TooLarge) as e:
        rep.skipped(what, "no model (%s)" % e)
        return
    if bad and "?" in bad:
        rep.skipped(what, "names of a string not found")
        return
    rep.ok(rule, what)
    if bad:
        rep.add(rule, what, loc, bad[:240])


def _names(cls):
    return {getattr(c, "name", c) for c in cls.mro}


def prepared(p, cls):
    life = world.Life(p, cls)
    life.construct()
    for n in ("weights", "mu", "iteration_"):
        life.st.put(("f", life.obj.oid, n), life.it.sym(life.st, "self " + n))
    return life


def estimate(rep, p, cls, who):
    base = next((c for c in cls.mro if getattr(c, "name", None) in MODELS), None)
    hit = cls.lookup("calc_parameters")
    if base is None or hit is None or hit[1] is not base and hit[1] not in base.mro:
        return
    link, named, rules, binary = MODELS[base.name]
    life = prepared(p, cls)
    prefit = None
    if life.has("precalc_parameters"):
        v, st, _ = life.run("precalc_parameters", False)
        if st is not None:
            prefit = life.it.term(v, st)
    v, st, _ = life.run("calc_parameters", False)
    if st is None:
        rep.skipped(who, "training of a bin always fails")
        return
    t = life.it.term(v, st)
    if t.op != "tuple" or len(t.kids()) != 2:
        rep.skipped(who, "no pair of estimate and uncertainty")
        return
    loc = life.it.method(cls, "calc_parameters").loc()
    for rule, what, compute in rules:
        settled(rep, rule, "%s: %s" % (who, what), loc,
                lambda a, compute=compute: compute(Case(a, life.it, link, prefit, named, binary), t.kids()))


def _link(names):
    return "log" if "LogLinkMixin" in names else "identity" if "IdentityLinkMixin" in names else None


def _row(a, it, far, known, link):
    """Target in terms of the prediction: above, below or equal."""
    p, w, e = a.symbol("p"), a.symbol("w", positive=True), a.symbol("e", positive=True)
    x = a.symbol("param", positive=True)
    known = dict(known)
    known[T("sym", "param").uid] = x
    known[T("sym", "yhat_others").uid] = a.div(p, x) if link == "log" else a.sub(p, x)
    y = a.add(p, a.mul(number(far), e))
    known.update({T("sym", "prediction").uid: p, T("sym", "y").uid: y, T("sym", "weights").uid: w})
    return Rows(a, known, it, [p, w, e]), y, p, w, e


def losses(rep, p, cls, who):
    """Weighted means over rows; the summand is compared for targets above, below and at the prediction."""
    life = prepared(p, cls)
    if not life.has("loss"):
        return
    v, st, _ = life.run("loss", False)
    if st is None:
        return
    t = life.it.term(v, st)
    loc = life.it.method(cls, "loss").loc()
    names = _names(cls)
    quantile = "CBQuantileRegressor" in names
    if "CBGBSRegressor" in names or "CBGenericLoss" in names and not quantile:
        return
    if "CBNBinomC" in names:
        likelihood(rep, who, life, t, loc)
        steps(rep, who, cls, life)
        return
    todo = [("", t, loc)]
    if quantile and life.has("objective_function"):
        v, st, _ = life.run("objective_function", False)
        if st is not None:
            todo.append(("minimised ", life.it.term(v, st), life.it.method(cls, "objective_function").loc()))
    for far, where, name, t, loc in [(f, w, n, x, l) for n, x, l in todo for f, w in ((1, "above"), (-1, "below"), (0, "at"))]:
        def compute(a):
            q = a.symbol("quantile", positive=True)
            a.assume_positive(a.sub(ONE, q))
            rd, y, pr, w, e = _row(a, life.it, far, {T("sym", "quantile").uid: q}, _link(names))
            got = rd.value(t)
            if quantile:
                cost = a.mul(e, q if far > 0 else a.sub(ONE, q)) if far else ZERO
            else:
                cost = a.mul(e, e) if far else ZERO
            want = a.div(rd.total(a.mul(w, cost)), rd.total(w))
            return None if a.equal(got, want) else "the loss is %s instead of %s" % (a.show(got), a.show(want))
        settled(rep, LOSS, "%s: %starget %s prediction" % (who, name, where), loc, compute)


def likelihood(rep, who, life, t, loc):
    """Mean negative logarithm of the negative binomial likelihood, with a penalty."""
    def compute(a):
        y, m, c = (a.symbol(n, positive=True) for n in ("y", "mu", "c"))
        g = a.symbol("gamma", positive=True)
        known = {T("sym", "y").uid: y, T("sym", "self mu").uid: m, T("sym", "c").uid: c, T("sym", "gamma").uid: g}
        rd = Rows(a, known, life.it, [y, m, c])
        got = rd.value(t)
        want = a.mul(rd.total(_density(a, y, m, c, g)), number(F(1, MANY)))
        return None if a.equal(got, want) else "the loss is %s instead of %s" % (a.show(got), a.show(want))
    settled(rep, LOSS, "%s: likelihood" % who, loc, compute)


def _density(a, y, m, c, g):
    """Negative logarithm of the probability of y with mean m and the parameter c, with a penalty."""
    p = a.div(ONE, a.add(ONE, a.mul(c, m)))
    n = a.div(a.mul(m, p), a.sub(ONE, p))
    ln = lambda v: a.fn("lgamma", v)
    log = a.sub(a.sub(ln(a.add(n, y)), ln(a.add(y, ONE))), ln(n))
    log = a.add(log, a.add(a.mul(n, a.log(p)), a.mul(y, a.log(a.sub(ONE, p)))))
    return a.add(a.neg(log), a.mul(g, c))


def steps(rep, who, cls, life):
    """The loss that is compared for candidate factors of a bin is that of its rows with the factor added."""
    v, st, _ = life.run("calc_parameters", False)
    if st is None:
        return
    for n, (mu, pair) in enumerate(sorted(life.it.mu.items(), key=lambda x: x[0].uid)):
        nxt = pair[1]
        if not isinstance(nxt, T) or not any(x.op == "call" and x.args[0].endswith("lgamma") for x in walk(nxt)):
            continue
        if not any(x is BINS for x in walk(nxt)) or nxt.op not in ("upd", "phi"):
            continue

        def compute(a):
            y, m, g = (a.symbol(k, positive=True) for k in ("y", "mu", "gamma"))
            link = a.symbol("link")
            known = {T("sym", "y").uid: y, T("sym", "self mu").uid: m, T("sym", "gamma").uid: g,
                     T("call", "meth.predict_link", T("sym", "pred")).uid: link}
            rd = Rows(a, known, life.it, [y, m, link])
            t = rd.resolve(nxt)
            if t.op != "upd" or t.args[0] is not mu or t.args[1].op != "sub" or t.args[1].args[0] is not BINS:
                raise Unknown("loop")
            own = T("sub", mu, t.args[1])
            rd.at.add(t.args[1].args[1].uid)
            rd.known[own.uid] = ZERO
            got = rd.value(t.args[2])
            new = {x for x in walk(t.args[2]) if x.op == "sub" and x.args[1].op == "elem" and x.args[1] is not t.args[1].args[1]}
            if len(new) != 1:
                raise Unknown("candidate")
            c = a.add(rd.value(new.pop()), link)
            c = a.div(ONE, a.add(ONE, a.exp(a.neg(c))))
            want = _density(a, y, m, c, g)
            return None if a.equal(got, want) else "the loss of a row is %s instead of %s" % (a.show(got), a.show(want))
        settled(rep, LOSS, "%s: loss of candidates" % who, life.it.method(cls, "calc_parameters").loc(), compute)
        return


def minimised(rep, p, cls, who, link):
    """Target, prediction and weights of the rows of a bin are handed to the minimisation in their places."""
    life = prepared(p, cls)
    v, st, ev = life.run("calc_parameters", False)
    if st is None:
        return
    t = life.it.term(v, st)
    calls = [e for e in ev if e.kind == "call" and str(e.data.get("q")).endswith("optimize.minimize")]
    if len(calls) != 1 or t.op != "tuple":
        rep.skipped(who, "%d minimisations" % len(calls))
        return
    e = calls[0]
    terms, kterms = e.data["terms"], e.data["kterms"]
    args = kterms.get("args") or (terms[2] if len(terms) > 2 else None)
    fun = life.it.method(cls, "objective_function")
    what = "%s: arguments of the minimisation" % who
    places = [_place(life.it, x) for x in args.kids()] if args is not None and args.op == "tuple" else [None]
    if fun is None or None in places:
        rep.skipped(what, "arguments not understood")
    else:
        roles = {"yhat_others": "prediction", "y": "target", "weights": "weights"}
        want = [roles.get(n) for n in fun.all_params[2:]]
        rep.ok(MODEL, what)
        if None not in want and places != want:
            rep.add(MODEL, what, e.loc(), "the minimisation gets %s as %s" % (", ".join(places), ", ".join(want)))

    def compute(a):
        found = {x for m in life.it.mu.values() for y in m if isinstance(y, T) for x in walk(y)
                 if x.op == "attr" and x.args[1] == "x" and x.args[0].op == "call" and x.args[0].args[0].endswith("minimize")}
        if len(found) != 1:
            raise Unknown("minimum")
        x = a.symbol("param", positive=True)
        got = Rows(a, {found.pop().uid: x}, life.it, [x]).value(t.kids()[0])
        want = a.log(x) if link == "log" else x
        return None if a.equal(got, want) else "a minimum at param becomes the factor %s" % a.show(got)
    settled(rep, MODEL, "%s: factor of a minimum" % who, life.it.method(cls, "calc_parameters").loc(), compute)


def _place(it, x):
    """What a column of the table of rows of a bin holds."""
    if x.op != "sub" or x.args[1].op != "tuple" or len(x.args[1].kids()) != 2:
        return None
    first, k = x.args[1].kids()
    if first.op != "slice" or k.op != "const" or not isinstance(k.args[0], int):
        return None
    seen, stack, found = set(), [x.args[0]], []
    while stack:
        t = stack.pop()
        if t.uid in seen:
            continue
        seen.add(t.uid)
        if t.op == "call" and t.args[0] in ("numpy.hstack", "numpy.column_stack"):
            found.append(t)
            continue
        stack.extend(t.kids())
        stack.extend(y for y in it.mu.get(t, ()) if isinstance(y, T))
    if len(found) != 1:
        return None
    cols = _columns(found[0])
    if cols is None or not -len(cols) <= k.args[0] < len(cols):
        return None
    c = cols[k.args[0]]
    has = lambda w: any(y is w for y in walk(c))
    if any(y.op == "call" and y.args[0] == "meth.predict_link" for y in walk(c)):
        return "prediction"
    return "target" if has(T("sym", "y")) else "weights" if has(T("sym", "self weights")) else None


def _columns(t):
    if t.op == "call" and t.args[0] in ("numpy.hstack", "numpy.column_stack"):
        parts = [k for k in t.kids() if k.op != "kw"]
        if len(parts) != 1 or parts[0].op not in ("tuple", "list"):
            return None
        out = []
        for x in parts[0].kids():
            c = _columns(x)
            if c is None:
                return None
            out += c
        return out
    return [t]


def model(rep, p, cls, who):
    """A parameter found by minimisation acts on the prediction as the factor made of it does on the link."""
    names = _names(cls)
    link = _link(names)
    if "CBGenericLoss" not in names or link is None:
        return
    minimised(rep, p, cls, who, link)
    life = prepared(p, cls)
    v, st, _ = life.run("model", False)
    if st is None:
        return
    t = life.it.term(v, st)

    def compute(a):
        x, y = a.symbol("param", positive=True), a.symbol("yhat", positive=True)
        got = Rows(a, {T("sym", "param").uid: x, T("sym", "yhat_others").uid: y}, life.it, [y]).value(t)
        want = a.mul(x, y) if link == "log" else a.add(x, y)
        return None if a.equal(got, want) else "the prediction becomes %s instead of %s" % (a.show(got), a.show(want))
    settled(rep, MODEL, "%s: model" % who, life.it.method(cls, "model").loc(), compute)


def _unlink(a, link, v):
    if link == "identity":
        return v
    e = a.exp(v)
    return e if link == "log" else a.div(e, a.add(ONE, e))


def start(rep, p, cls, who):
    """Scale of the model and offset of prior predictions."""
    names = _names(cls)
    link = _link(names) or ("logit" if "LogitLinkMixin" in names else None)
    life = world.Life(p, cls, ctor_kwargs={"prior_prediction_column": K(PRIOR)})
    life.construct()
    life.st.put(("f", life.obj.oid, "weights"), life.it.sym(life.st, "self weights"))
    if link is None or names & {"CBQuantileRegressor", "CBNBinomC"} or not life.has("_init_global_scale"):
        return
    v, st, _ = life.run("_init_global_scale", False)
    if st is None:
        rep.skipped(who, "start of training always fails")
        return
    fields = life.it.fields(life.obj.oid, st)
    got = {n: life.it.term(fields[n], st) for n in ("global_scale_link_", "prior_pred_link_offset_") if n in fields}
    loc = life.it.method(cls, "_init_global_scale").loc()

    def compute(a, offset):
        y, w, q = (a.symbol(n, positive=True) for n in ("y", "w", "prior"))
        known = {T("sym", "y").uid: y, T("sym", "self weights").uid: w}
        for t in got.values():
            for x in walk(t):
                if x.op == "sub" and any(k.op == "const" and k.args[0] == PRIOR for k in (x.args[1],) + tuple(x.args[1].kids())):
                    known[x.uid] = q
                    known[T("attr", x, "values").uid] = q
        rd = Rows(a, known, life.it, [y, w, q])
        scale = rd.value(got["global_scale_link_"])
        mean = a.div(rd.total(a.mul(w, y)), rd.total(w))
        if not offset:
            rest = a.sub(_unlink(a, link, scale), mean)
            small = [F(n, 1000) for n in range(11)] + [F(1, 10 ** n) for n in range(4, 13)]
            if not any(a.equal(rest, number(n)) for n in small):
                return "the scale is %s instead of that of the mean %s" % (a.show(scale), a.show(mean))
            return None
        prior = a.div(rd.total(a.mul(w, q)), rd.total(w))
        off = rd.value(got["prior_pred_link_offset_"])
        if a.equal(_unlink(a, link, a.sub(scale, off)), prior):
            return None
        return "the offset of prior predictions is %s for the scale %s and the mean %s" % (a.show(off), a.show(scale), a.show(prior))
    if "global_scale_link_" in got:
        settled(rep, START, "%s: scale" % who, loc, lambda a: compute(a, False))
        if "prior_pred_link_offset_" in got and "CBGBSRegressor" not in names:
            settled(rep, START, "%s: prior" % who, loc, lambda a: compute(a, True))


def check(rep, p, cls):
    who = world.short(cls)
    start(rep, p, cls, who)
    estimate(rep, p, cls, who)
    losses(rep, p, cls, who)
    model(rep, p, cls, who)


def run(p, rep, tier):
    rep.rule(FACTOR, "the estimate of a bin is the documented function of weights, targets and predictions of its rows")
    rep.rule(SPREAD, "its uncertainty is the documented function of them")
    rep.rule(LOSS, "the loss is the weighted mean over rows of the documented loss of a row")
    rep.rule(MODEL, "a minimised parameter changes predictions as its factor does")
    rep.rule(START, "training starts at the weighted mean of the target; prior predictions are moved so that their weighted mean is there")
    items = world.estimators(p)
    rep.count("estimators", len(items))
    parallel(rep, p, items, check, world.short)
    for rule, n in ((FACTOR, 4), (SPREAD, 4), (LOSS, 12), (MODEL, 2), (START, 8)):
        rep.floor(rule, n)
