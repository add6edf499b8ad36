"""C17: functions and their inverses undo each other; distributions pass through their quantiles."""
from fractions import Fraction as F

from .. import world
from ..algebra import Algebra, Reader, TooLarge, Undefined, Unknown, cases, number
from ..framework import parallel
from ..interp import Interp
from ..state import State
from ..terms import T

PAIR = "inverse-undoes"
THROUGH = "passes-through-its-quantiles"

MODULE = "cyclic_boosting.quantile_matching."
PAIRS = (("link_func", "unlink_func"), ("ppf", "cdf"))
FUNCTIONS = (("transform_from_bounds", "back_transform_in_bounds"),
             ("transform_from_semibound_lower", "back_transform_in_semibound_lower"),
             ("transform_from_semibound_upper", "back_transform_in_semibound_upper"))


def first_param(fi):
    names = [a.arg for a in fi.node.args.posonlyargs + fi.node.args.args]
    return names[1] if names and names[0] in ("self", "cls") else names[0]


def method_term(life, name):
    fi = life.it.method(life.cls, name)
    v, st, _ = life.run(name, keep=False, prefix="new ")
    if st is None:
        return None, None, fi
    return life.it.term(v, st), T("sym", "new " + first_param(fi)), fi


def say(answers):
    out = ["%s %s 0" % (k[1], {1: ">", 0: "=", -1: "<"}[v]) for k, v in answers.items() if k[0] == "sign"]
    return " if " + " and ".join(sorted(out)) if out else ""


def surroundings(a, names, odds):
    """Values of the parameters of a distribution given by quantiles: l < low < median < high < u, 0 < alpha < 1/2."""
    one = number(1)
    alpha = a.symbol("alpha", positive=True)
    base, upper = number(0), number(0)
    points = [a.symbol(n) for n in ("low", "median", "high")]
    if "l" in names:
        base = a.symbol("l")
        points = [a.add(base, a.symbol("(%s - l)" % n, positive=True)) for n in ("low", "median", "high")]
    if odds:
        # points by their odds: t = (v - l) / (u - v)
        points = []
        for n in ("low", "median", "high"):
            t = a.symbol("odds of %s" % n, positive=True)
            points.append(a.add(base, a.div(a.mul(a.symbol("(u - l)", positive=True), t), a.add(one, t))))
    low, median, high = points
    pairs = [(low, median), (low, high), (median, high)]
    if "u" in names:
        upper = a.add(base, a.symbol("(u - l)", positive=True))
        pairs += [(v, upper) for v in points]
    pairs += [(alpha, one), (a.mul(number(2), alpha), one)]
    for v, w in pairs:
        a.assume_positive(a.sub(w, v))
    known = {"alpha": alpha, "qv_low": low, "qv_median": median, "qv_high": high, "l": base, "u": upper}
    return {k: v for k, v in known.items() if k in names}


def argument(a, name, names, odds):
    """An argument of the function inside its domain."""
    if name == "ppf":
        x = a.symbol("x", positive=True, moving=True)
        a.assume_positive(a.sub(number(1), x))
        return x
    if name == "cdf" and "l" in names:
        if odds:
            t = a.symbol("odds of x", positive=True, moving=True)
            return a.add(a.symbol("l"), a.div(a.mul(a.symbol("(u - l)"), t), a.add(number(1), t)))
        t = a.symbol("(x - l)", positive=True, moving=True)
        if "u" in names:
            a.assume_positive(a.sub(a.symbol("(u - l)"), t))
        return a.add(a.symbol("l"), t)
    return a.symbol("x", moving=True)


def composed(name, names, inner, xi, outer, xo, odds=False):
    """Cases in which outer(inner(x)) is not x: list of (answers, what comes out)."""
    def compute(answers):
        a = Algebra(answers)

        def go():
            env = {T("sym", k).uid: v for k, v in surroundings(a, names, odds).items()} if names else {}
            x = argument(a, name, names, odds)
            mid = Reader(a, dict(env) | {xi.uid: x}).value(inner)
            out = Reader(a, dict(env) | {xo.uid: mid}).value(outer)
            return a.equal(out, x), a.show(out)
        try:
            return a.calculate(go)
        except Undefined as e:
            return False, "undefined (%s)" % e

    return [(k, r[1]) for k, r in cases(compute) if not r[0]]


def either(compute, names):
    """Two ways to write down the points between two bounds: distances or odds."""
    try:
        return compute(False)
    except (Unknown, TooLarge):
        if "u" not in names:
            raise
    return compute(True)


def parameters(cls, it):
    """Parameters of a distribution that is given by quantiles."""
    init = it.method(cls, "__init__")
    names = [a.arg for a in init.node.args.args] if init is not None else []
    return names if all(n in names for n in QUANTILES) else []


def report(rep, rule, what, loc, bad, text):
    """Symmetric quantiles are a construct of their own."""
    groups = {}
    for k, out in bad:
        zero = any(v == 0 and "high" in str(q[1]) for q, v in k.items() if q[0] == "sign")
        groups.setdefault(", symmetric quantiles" if zero else "", []).append((k, out))
    for g, items in sorted(groups.items()):
        answers, out = min(items, key=lambda b: len(b[1]))
        rep.add(rule, what + g, loc, text % out[:160] + say(answers))


def pair(rep, who, f, g, names=()):
    """f, g: (term, argument, function)."""
    for (t1, x1, f1), (t2, x2, f2) in ((f, g), (g, f)):
        what = "%s: %s of %s" % (who, f2.name, f1.name)
        if t1 is None or t2 is None:
            rep.skipped(what, "always raises")
            continue
        try:
            bad = either(lambda odds: composed(f1.name, names, t1, x1, t2, x2, odds), names)
        except (Unknown, TooLarge) as e:
            rep.skipped(what, "no model (%s)" % e)
            continue
        rep.ok(PAIR, what)
        report(rep, PAIR, what, f2.loc(), bad, f2.name + "(" + f1.name + "(x)) is %s instead of x")


QUANTILES = ("alpha", "qv_low", "qv_median", "qv_high")


def through(rep, cls, names, f):
    """The distribution has the three quantiles it was made of."""
    t, x, fi = f
    for where, name in (("alpha", "qv_low"), ("1/2", "qv_median"), ("1 - alpha", "qv_high")):
        what = "%s: quantile %s is %s" % (world.short(cls), where, name)

        def compute(answers, odds):
            a = Algebra(answers)

            def go():
                known = surroundings(a, names, odds)
                at = {"alpha": known["alpha"], "1/2": number(F(1, 2)), "1 - alpha": a.sub(number(1), known["alpha"])}[where]
                env = {T("sym", k).uid: v for k, v in known.items()}
                env[x.uid] = at
                got = Reader(a, env).value(t)
                return a.equal(got, known[name]), a.show(got)
            try:
                return a.calculate(go)
            except Undefined as e:
                return False, "undefined (%s)" % e

        try:
            bad = either(lambda odds: [(k, r[1]) for k, r in cases(lambda k: compute(k, odds)) if not r[0]], names)
        except (Unknown, TooLarge) as e:
            rep.skipped(what, "no model (%s)" % e)
            continue
        rep.ok(THROUGH, what)
        report(rep, THROUGH, what, fi.loc(), bad, "the distribution gives %s there")


def classes_of(p):
    out = []
    for c in p.classes.values():
        for a, b in PAIRS:
            if (a in c.methods or b in c.methods) and c.lookup(a) and c.lookup(b) and not c.has_abstract():
                out.append((c, a, b))
    return sorted(out, key=lambda x: x[0].qualname)


def check(rep, p, item):
    cls, a, b = item
    life = world.Life(p, cls)
    life.construct()
    f, g = method_term(life, a), method_term(life, b)
    rep.functions |= life.it.inlined
    names = parameters(cls, life.it) if a == "ppf" else []
    pair(rep, world.short(cls), f, g, names)
    if names and f[0] is not None:
        through(rep, cls, names, f)


def functions(rep, p, there, back):
    """Transformations of the target to an unbounded range and back."""
    found = [p.func(MODULE + n) for n in (there, back)]
    terms, names = [], []
    for fi in found:
        it = Interp(p)
        v, st = it.call_entry(fi, State(it.root), None, prefix="new ")
        rep.functions |= it.inlined
        names = [a.arg for a in fi.node.args.args]
        terms.append((it.term(v, st) if st is not None else None, T("sym", "new " + names[0]), fi))
    for (t1, x1, f1), (t2, x2, f2) in (terms, terms[::-1]):
        what = "%s of %s" % (f2.name, f1.name)
        if t1 is None or t2 is None:
            rep.skipped(what, "always raises")
            continue

        def compute(answers):
            a = Algebra(answers)

            def go():
                span = a.symbol("(u - l)", positive=True)
                lower = a.symbol("l") if "l" in names else a.sub(a.symbol("u"), span)
                upper = a.add(lower, span) if "l" in names else a.symbol("u")
                x = a.symbol("x", moving=True)
                if f1.name == there:
                    t = a.symbol("odds of x", positive=True, moving=True)
                    x = a.add(lower, t) if "u" not in names else a.sub(upper, t) if "l" not in names else a.add(
                        lower, a.div(a.mul(span, t), a.add(number(1), t)))
                env = {T("sym", "new l").uid: lower, T("sym", "new u").uid: upper}
                mid = Reader(a, env | {x1.uid: x}).value(t1)
                out = Reader(a, env | {x2.uid: mid}).value(t2)
                return a.equal(out, x), a.show(out)
            return a.calculate(go)

        try:
            bad = [(k, r[1]) for k, r in cases(compute) if not r[0]]
        except (Unknown, Undefined, TooLarge) as e:
            rep.skipped(what, "no model (%s)" % e)
            continue
        rep.ok(PAIR, what)
        report(rep, PAIR, what, f2.loc(), bad, f2.name + "(" + f1.name + "(x)) is %s instead of x")


def run(p, rep, tier):
    rep.rule(PAIR, "a function composed with its inverse is the identity, for all arguments of its domain and all options")
    rep.rule(THROUGH, "a distribution given by three quantiles has these quantiles, whether they are skewed or symmetric")
    items = classes_of(p)
    rep.count("classes", len(items))
    parallel(rep, p, items, check, lambda i: world.short(i[0]))
    for there, back in FUNCTIONS:
        rep.guard("%s and %s" % (there, back), functions, rep, p, there, back)
    rep.floor(PAIR, 20)
    rep.floor(THROUGH, 12)
