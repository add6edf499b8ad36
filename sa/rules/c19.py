"""C19: the step sizes of a training rise to one and are asked for iteration by iteration."""
import math
import re
from fractions import Fraction as F

from .. import world
from ..algebra import Algebra, Reader, TooLarge, Undefined, Unknown, cases, number
from ..framework import parallel
from ..interp import Interp
from ..state import State
from ..terms import T, show, walk

RANGE = "step-size-range"
ASKED = "step-size-asked-for"
APPLIED = "step-size-applied"

MODULE = "cyclic_boosting.learning_rate"
PARAMS = ["iteration", "maximal_iteration"]


def schedules(p):
    """Functions of (iteration, maximal_iteration, ...)."""
    m = p.modules.get(MODULE)
    out = []
    for fi in (m.functions.values() if m is not None else ()):
        names = [a.arg for a in fi.node.args.posonlyargs + fi.node.args.args]
        if not fi.name.startswith("_") and len(names) >= 2:
            out.append((fi, names))
    return out


# the step size as a function of iteration t and maximal iteration N

def _form(text):
    """'-1*t + d' as {'t': -1, 'd': 1}; None if it is not a sum of multiples of symbols."""
    out = {}
    for part in text.split(" + "):
        m = re.fullmatch(r"(?:(-?\d+(?:/\d+)?)\*)?([a-z]+)|(-?\d+(?:/\d+)?)", part)
        if m is None:
            return None
        k = m.group(2) or ""
        out[k] = out.get(k, 0) + (F(m.group(3)) if m.group(3) else F(m.group(1) or 1))
    return out


def impossible(answers):
    """Whether two of the answers contradict each other, all symbols being positive."""
    known = []
    for (kind, text), v in answers.items():
        f = _form(text) if kind == "sign" else None
        if f is None:
            continue
        for s in ((1, -1) if v == 0 else (v,)):
            known.append(({k: s * c for k, c in f.items()}, v == 0))
    for i, (f, eq1) in enumerate(known):
        for g, eq2 in known[i + 1:]:
            h = {k: f.get(k, 0) + g.get(k, 0) for k in set(f) | set(g)}
            if all(c <= 0 for c in h.values()) and not (eq1 and eq2 and not any(h.values())):
                return True
    return False


def exact(t, names):
    """Faults of the step size for 0 < t < t + d < N, by sign of differences."""
    def compute(answers):
        a = Algebra(answers)

        def go():
            now, d, rest = (a.symbol(n, positive=True) for n in ("t", "d", "rest"))
            later = a.add(now, d)
            n = a.add(later, rest)

            def step(i):
                known = {T("sym", "new " + names[0]).uid: i, T("sym", "new " + names[1]).uid: n}
                return Reader(a, known).value(t)
            x, y, last = step(now), step(later), step(n)
            out = []
            if a.sign(x) <= 0:
                out.append(("positive", "is not positive: %s" % a.show(x)))
            if a.sign(a.sub(number(1), x)) < 0:
                out.append(("at most one", "exceeds one: %s" % a.show(x)))
            if a.sign(a.sub(y, x)) < 0:
                out.append(("rising", "falls from %s to %s" % (a.show(x), a.show(y))))
            if not a.equal(last, number(1)):
                out.append(("last iteration", "is %s in the last iteration" % a.show(last)))
            return out
        try:
            return a.calculate(go)
        except Undefined as e:
            return [("positive", "is undefined (%s)" % e)]
    out = {}
    for answers, bad in cases(compute):
        if bad and not impossible(answers):
            for k, text in bad:
                out.setdefault(k, text)
    return out


class Abstract(object):
    """N**k * g(u) for u = t / N in (0, 1]: limits of g at both ends and its direction."""

    def __init__(self, k, lo, hi, way):
        self.k, self.lo, self.hi, self.way = k, lo, hi, way     # values for u = 0 and u = 1; way: 1, 0, -1

    def ends(self):
        return min(self.lo, self.hi), max(self.lo, self.hi)


def _combine(x, y):
    if x == y or y == 0:
        return x
    if x == 0:
        return y
    raise Unknown("direction")


def _flip(x):
    return Abstract(x.k, -x.lo, -x.hi, -x.way)


def _add(x, y):
    if x.k != y.k:
        raise Unknown("sum of different powers of the number of iterations")
    return Abstract(x.k, x.lo + y.lo, x.hi + y.hi, _combine(x.way, y.way))


def _mul(x, y):
    if x.way == 0:
        x, y = y, x
    if y.way == 0:
        s = (y.lo > 0) - (y.lo < 0)
        return Abstract(x.k + y.k, x.lo * y.lo, x.hi * y.lo, x.way * s)
    if x.ends()[1] <= 0:
        return _flip(_mul(_flip(x), y))
    if y.ends()[1] <= 0:
        return _flip(_mul(x, _flip(y)))
    if x.ends()[0] < 0 or y.ends()[0] < 0:
        raise Unknown("product")
    return Abstract(x.k + y.k, x.lo * y.lo, x.hi * y.hi, _combine(x.way, y.way))


def _inverse(x):
    a, b = x.ends()
    if a <= 0 <= b:
        raise Unknown("quotient")
    return Abstract(-x.k, 1 / x.lo, 1 / x.hi, -x.way)


def _apply(f, x):
    if x.k:
        raise Unknown("power of the number of iterations")
    try:
        return Abstract(0, f(x.lo), f(x.hi), x.way)
    except (ValueError, OverflowError):
        raise Unknown("domain")


RISING = {"numpy.exp": math.exp, "numpy.log": math.log, "numpy.tanh": math.tanh, "numpy.sqrt": math.sqrt, "math.exp": math.exp,
          "math.log": math.log, "math.tanh": math.tanh, "math.sqrt": math.sqrt, "numpy.expm1": math.expm1,
          "numpy.log1p": math.log1p, "scipy.special.expit": lambda x: 1 / (1 + math.exp(-x))}
LIMITS = {"numpy.minimum": min, "builtins.min": min, "numpy.maximum": max, "builtins.max": max}


def abstract(t, names):
    if t.op == "const" and isinstance(t.args[0], (int, float)):
        return Abstract(0, float(t.args[0]), float(t.args[0]), 0)
    if t.op == "sym" and t.args[0] == "new " + names[0]:
        return Abstract(1, 0.0, 1.0, 1)
    if t.op == "sym" and t.args[0] == "new " + names[1]:
        return Abstract(1, 1.0, 1.0, 0)
    if t.op == "un" and t.args[0] in ("USub", "-"):
        return _flip(abstract(t.args[1], names))
    if t.op == "bin":
        o, x, y = t.args[0], abstract(t.args[1], names), abstract(t.args[2], names)
        if o == "Add":
            return _add(x, y)
        if o == "Sub":
            return _add(x, _flip(y))
        if o == "Mult":
            return _mul(x, y)
        if o == "Div":
            return _mul(x, _inverse(y))
    if t.op == "call":
        args = t.args[1:]
        if t.args[0] in ("cast", "builtins.float") and args:
            return abstract(args[0], names)
        if t.args[0] in RISING and len(args) == 1:
            return _apply(RISING[t.args[0]], abstract(args[0], names))
        if t.args[0] in LIMITS and len(args) == 2:
            x, y = (abstract(a, names) for a in args)
            if x.k or y.k:
                raise Unknown("limit")
            f = LIMITS[t.args[0]]
            return Abstract(0, f(x.lo, y.lo), f(x.hi, y.hi), _combine(x.way, y.way))
    raise Unknown(show(t, 2))


def bounded(t, names):
    """Faults of a step size that depends on t / N only, by its direction and its limits."""
    v = abstract(t, names)
    if v.k:
        raise Unknown("power of the number of iterations")
    out = {}
    a, b = v.ends()
    if a < -1e-9 or b <= 0:
        out["positive"] = "is not positive: it goes from %.6g to %.6g" % (v.lo, v.hi)
    if b > 1 + 1e-9:
        out["at most one"] = "exceeds one: it goes from %.6g to %.6g" % (v.lo, v.hi)
    if v.way < 0:
        out["rising"] = "falls from %.6g to %.6g" % (v.lo, v.hi)
    if abs(v.hi - 1) > 1e-6:
        out["last iteration"] = "is %.6g in the last iteration" % v.hi
    return out


def shape(rep, p, fi, names):
    it = Interp(p)
    v, st = it.call_entry(fi, State(it.root), None, prefix="new ")
    rep.functions |= it.inlined
    if st is None:
        rep.skipped(fi.name, "always raises")
        return
    t = it.term(v, st)
    try:
        bad = exact(t, names)
    except (Unknown, TooLarge):
        try:
            bad = bounded(t, names)
        except Unknown as e:
            rep.skipped(fi.name, "no model (%s)" % e)
            return
    for what in ("positive", "at most one", "rising", "last iteration"):
        rep.ok(RANGE, "%s: %s" % (fi.name, what))
        if what in bad:
            rep.add(RANGE, "%s: %s" % (fi.name, what), fi.loc(), "the step size of %s %s" % (fi.name, bad[what]))


# how estimators ask for it

def counted(it, t):
    """(name, first value) of a counter that rises by one; None if it is no counter."""
    off = 0
    while t.op == "bin" and t.args[0] in ("Add", "Sub"):
        x, y = t.args[1:]
        if x.op == "const" and t.args[0] == "Add":
            x, y = y, x
        if y.op != "const" or not isinstance(y.args[0], int):
            return None
        off += y.args[0] if t.args[0] == "Add" else -y.args[0]
        t = x
    if t.op == "elem" and t.args[0].op == "call" and t.args[0].args[0] == "builtins.range":
        a = t.args[0].args[1:]
        first = 0 if len(a) == 1 else a[0].args[0] if a and a[0].op == "const" else None
        return None if first is None or len(a) > 2 else ("range", first + off)
    pair = it.mu.get(t) or it.mu.get(t.uid)
    if t.op != "mu" or pair is None:
        return None
    init, nxt = pair
    if init is None or init.op != "const" or not isinstance(init.args[0], int):
        return None
    for leaf in leaves(nxt):
        if leaf is t:
            continue
        one = leaf.op == "bin" and leaf.args[0] == "Add" and any(
            leaf.args[i] is t and leaf.args[3 - i].op == "const" and leaf.args[3 - i].args[0] == 1 for i in (1, 2))
        if not one:
            return None
    return "counter", init.args[0] + off


def leaves(t):
    return [x for k in t.args[1:] for x in leaves(k)] if t.op == "phi" else [t]


def asked(e, known):
    """Terms of the arguments if the event asks for a step size."""
    if e.kind == "icall" and e.data["fi"].qualname in known:
        caller = e.fi
        if caller is not None and caller.qualname in known:
            return None
        return known[e.data["fi"].qualname]
    if e.kind == "ucall" and e.data["fn"] is T("sym", "learn_rate"):
        return PARAMS + ["feature"]
    return None


def check(rep, p, cls):
    life = world.Life(p, cls)
    life.construct()
    _, st, events = life.run("fit", True)
    it = life.it
    rep.functions |= it.inlined
    who = world.short(cls)
    known = {fi.qualname: names for fi, names in schedules(p)}
    done, seen = 0, set()
    for e in events:
        names = asked(e, known)
        if names is None or st is None:
            continue
        given = dict(zip(names, e.data["args"]))
        given.update(e.data["kwargs"])
        what = "%s: %s" % (who, e.data["fi"].name if e.kind == "icall" else "given schedule")
        done += 1
        if names[0] not in given or names[1] not in given:
            rep.skipped(what, "arguments not recognised")
            continue
        i, n = (e.data["now"].get(id(given[k])) or it.term(given[k], st) for k in names[:2])
        c = counted(it, i)
        if c is None and i.op in ("mu", "bin", "elem", "lost"):
            rep.skipped(what + ", iteration", "no counter: " + show(i, 3))
        else:
            rep.ok(ASKED, what + ", iteration")
            if c is None or c[1] != 1:
                rep.add(ASKED, what + ", iteration", e.loc(), "the first iteration has the number %s instead of 1" % (
                    show(i, 3) if c is None else c[1]))
        rep.ok(ASKED, what + ", maximal iteration")
        if n is not T("sym", "maximal_iterations"):
            rep.add(ASKED, what + ", maximal iteration", e.loc(), "the step size is asked for %s instead of the maximal number of iterations" % show(n, 3))
    if not done:
        rep.skipped(who, "no step size asked for")
    applied(rep, who, it, st, events)


def _kept(t):
    """Whether an array is the factors of a feature kept from the iteration before."""
    for x in leaves(t):
        while x.op == "upd":
            x = x.args[0]
        if x.op == "mu" and "factors_link" in str(x.args):
            return True
    return False


def _given(t):
    return [x for x in walk(t) if x.op == "apply" and x.args[0] is T("sym", "learn_rate")]


class Step(Reader):
    """Reads a number as a function of the step size of a schedule given by the user."""

    def value(self, t):
        if t.op != "const" and t.uid not in self.known and not self.depends(t):
            return self.a.atom("term", t.uid)
        return Reader.value(self, t)

    def _ask(self, c):
        if self.depends(c):
            raise Unknown("condition " + show(c, 3))
        if c.op == "cmp" and c.args[0] in ("is", "is not") and T("const", None) in c.args[1:]:
            for name, none in (("learn_rate", False), ("hierarchical_feature_groups", True)):
                if T("sym", name) in c.args[1:]:
                    return none is (c.args[0] == "is")
        return self.a._ask(("truth", c.uid), (True, False))


def proportional(v):
    """None if v is a multiple of the step size, else what it is."""
    given = _given(v)
    if not given:
        return show(v, 3)

    def compute(answers):
        a = Algebra(answers)

        def go():
            step = a.symbol("step", positive=True)
            a.assume_positive(a.sub(number(1), step))
            x = Step(a, {g.uid: step for g in given}).value(v)
            y = Step(a, {g.uid: number(1) for g in given}).value(v)
            return None if a.equal(x, a.mul(step, y)) else a.show(x)
        try:
            return a.calculate(go)
        except Unknown as e:
            return e
    found = [r for _, r in cases(compute) if r is not None]
    for r in sorted(found, key=lambda r: isinstance(r, Unknown)):
        if isinstance(r, Unknown):
            raise r
        return r
    return None


def applied(rep, who, it, st, events):
    """The factor of missing values is learned with the step size as well."""
    for e in events:
        if e.kind != "mutate" or e.data.get("how") != "[]=" or not isinstance(e.data.get("before"), T) or st is None:
            continue
        idx = e.data.get("idx")
        if not isinstance(idx, T) or idx is not T("const", -1) or not _kept(e.data["before"]):
            continue
        after = e.data.get("after")
        v = after.args[2] if isinstance(after, T) and after.op == "upd" else it.term(e.data["value"], st)
        what = "%s: factor of missing values in %s" % (who, e.fi.name if e.fi is not None else "?")
        if all(x.op == "const" for x in leaves(v)):
            continue
        if any(x.op == "lost" for x in leaves(v)):
            rep.skipped(what, "value not followed")
            continue
        if e.facts is not None and any(_given(f) for f, _ in e.facts.items()):
            rep.skipped(what, "depends on the step size")
            continue
        try:
            bad = proportional(v)
        except (Unknown, Undefined, TooLarge) as u:
            rep.skipped(what, "no model (%s)" % u)
            continue
        rep.ok(APPLIED, what)
        if bad:
            rep.add(APPLIED, what, e.loc(), "the factor of missing values is not learned with the step size: %s" % bad[:160])


def run(p, rep, tier):
    rep.rule(RANGE, "a schedule is positive, never exceeds one, never falls and reaches one in the last iteration")
    rep.rule(ASKED, "the step size is asked for the number of the iteration, starting with one, and the maximal number of iterations")
    rep.rule(APPLIED, "a factor learned for missing values is a multiple of the step size")
    for fi, names in schedules(p):
        rep.count("schedules")
        rep.guard(fi.name, shape, rep, p, fi, names)
    items = [c for c in world.estimators(p) if c.lookup("fit") is not None]
    rep.count("estimators", len(items))
    parallel(rep, p, items, check, world.short)
    rep.floor(RANGE, 12)
    rep.floor(ASKED, 20)
    rep.floor(APPLIED, 5)
