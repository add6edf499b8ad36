"""C18: a chain of quantile models predicts ordered quantiles and undoes the transformation it was trained with."""
from .. import world
from ..algebra import Algebra, Reader, TooLarge, Undefined, Unknown, cases, number
from ..state import K, Obj
from ..terms import T, show
from .c17 import say

ORDER = "quantiles-ordered"
UNDO = "prediction-undoes-training"
ROWS = "trained-on-its-rows"
SAME = "distribution-of-the-predictions"

STAGES = ("est_median", "est_lowq", "est_highq")
BOUNDS = (("S", "lower bound"), ("B", "both bounds"))
NAMES = {"est_median": "median", "est_lowq": "lower quantile", "est_highq": "upper quantile"}


SELECT = {"numpy." + n for n in "less less_equal greater greater_equal logical_and logical_or logical_not where flatnonzero nonzero".split()}


def chains(p):
    """Classes that are made of three models, one for each quantile."""
    for c in p.classes.values():
        hit = c.lookup("__init__")
        if hit and hit[0] == "method" and set(STAGES) <= {a.arg for a in hit[2].node.args.args}:
            yield c


def model_of(t):
    """Which of the three models a term is."""
    while t.op in ("mut", "upd") and t.kids():
        t = t.kids()[0]
    return t.args[0] if t.op == "sym" and t.args[0] in STAGES else None


def is_mask(i):
    return i.op in ("cmp", "not", "and", "or", "truth") or i.op == "bin" and i.args[0] in ("BitAnd", "BitOr") or (
        i.op == "un" and i.args[0] in ("~", "invert", "Invert")) or i.op == "call" and i.args[0] in SELECT


def unmasked(t):
    """(recv, mask) of a selection of rows, else None."""
    if t.op == "sub" and is_mask(t.args[1]):
        return t.args[0], t.args[1]
    if t.op == "sub" and t.args[0].op == "attr" and t.args[0].args[1] in ("loc", "iloc"):
        i = t.args[1]
        i = i.kids()[0] if i.op == "tuple" and i.kids() else i
        if is_mask(i):
            return t.args[0].args[0], i
    return None


class Chain(Reader):
    """Reads the terms of one row: models predict given numbers, selections keep the row."""

    def __init__(self, alg, env, predicted):
        Reader.__init__(self, alg, env)
        self.predicted = predicted

    def _value(self, t):
        if t.op == "call" and t.args[0] == "meth.predict":
            m = model_of(t.args[1])
            if m in self.predicted:
                return self.predicted[m]
        s = unmasked(t)
        if s is not None:
            return self.value(s[0])
        return Reader._value(self, t)

    def depends(self, t):
        return True


def masks_of(t, out, under=(), seen=None):
    """Row-wise inputs of a term with the selections they went through."""
    seen = set() if seen is None else seen
    if (t.uid, under) in seen:
        return
    seen.add((t.uid, under))
    s = unmasked(t)
    if s is not None:
        masks_of(s[0], out, under + (s[1].uid,), seen)
        return
    if t.op == "sym" and t.args[0] in ("X", "y", "new X", "new y") or t.op == "call" and t.args[0] == "meth.predict":
        out.setdefault(under, t)
        return
    if t.op == "attr" and t.args[1] in ("shape", "size", "ndim") or t.op == "len":
        return
    for k in t.kids():
        masks_of(k, out, under, seen)


def selections(t, out, seen):
    if t.uid in seen:
        return
    seen.add(t.uid)
    s = unmasked(t)
    if s is not None:
        out.append(s[1])
    if t.op == "call" and t.args[0] == "meth.predict":
        return
    for k in ([s[0]] if s is not None else t.kids()):
        selections(k, out, seen)


class World(object):
    """One row of data: bounds, predictions of the three models and a target in the range of one of them."""

    def __init__(self, a, bound):
        self.a = a
        self.l = a.symbol("l")
        self.span = a.symbol("(u - l)", positive=True)
        self.u = a.add(self.l, self.span)
        self.bound = bound
        self.z = {s: a.symbol("prediction of the " + NAMES[s], moving=True) for s in STAGES}
        self.env = {T("sym", "l").uid: self.l, T("sym", "u").uid: self.u}

    def between(self, lower, upper, name="y"):
        a, t = self.a, self.a.symbol("odds of " + name, positive=True, moving=True)
        if upper is None:
            return a.add(lower, t)
        return a.add(lower, a.div(a.mul(a.sub(upper, lower), t), a.add(number(1), t)))

    def top(self):
        return self.u if self.bound == "B" else None

    def reader(self, **more):
        env = dict(self.env)
        predicted = dict(self.z)
        for k, v in more.items():
            if k in STAGES:
                predicted[k] = v
            else:
                env[T("sym", k).uid] = env[T("sym", "new " + k).uid] = v
        return Chain(self.a, env, predicted)

    def ranges(self, median):
        """(lower, upper) of the targets of each stage."""
        return {"est_median": (self.l, self.top()), "est_lowq": (self.l, median), "est_highq": (median, self.top())}


def decide(bound, fn):
    """Cases in which fn(world) does not give None."""
    def compute(answers):
        a = Algebra(answers)
        try:
            return a.calculate(lambda: fn(World(a, bound)))
        except Undefined as e:
            return "undefined (%s)" % e
    return [(k, r) for k, r in cases(compute) if r is not None]


def conclude(rep, rule, what, loc, bound, fn, text):
    try:
        bad = decide(bound, fn)
    except (Unknown, TooLarge) as e:
        rep.skipped(what, "no model (%s)" % e)
        return
    rep.ok(rule, what)
    groups = {}
    for answers, out in bad:
        out, kind = out if isinstance(out, tuple) else (out, "")
        groups.setdefault(kind, []).append((answers, out))
    for kind, items in sorted(groups.items()):
        answers, out = min(items, key=lambda b: len(b[1]))
        rep.add(rule, what + kind, loc, text % out[:160] + say(answers))


def trained(life):
    """Model -> (features, targets, event) of its only training."""
    _, _, events = life.run("fit", True)
    out = {}
    for e in events:
        if e.kind == "mcall" and e.data["name"] == "fit" and model_of(e.data["rterm"]):
            ts, kw = list(e.data["terms"]), e.data["kterms"]
            x = kw.get("X", ts[0] if ts else None)
            y = kw.get("y", ts[1] if len(ts) > 1 else ts[0] if "X" in kw and ts else None)
            out.setdefault(model_of(e.data["rterm"]), []).append((x, y, e))
    return {k: v[0] for k, v in out.items() if len(v) == 1 and v[0][0] is not None and v[0][1] is not None}


def check(rep, p, cls, bound, label):
    who = "%s, %s" % (world.short(cls), label)
    life = world.Life(p, cls, ctor_kwargs={"bound": K(bound)})
    life.construct()
    it = life.it
    fits = trained(life)
    value, st, events = life.run("predict", True)
    rep.functions |= it.inlined
    items = it.seq_items(value, st) if value is not None else None
    if not items or len(items) < 4:
        rep.skipped(who, "predictions not recognised")
        return
    low, median, high = [it.term(v, st) for v in items[:3]]
    loc = it.method(cls, "predict").loc()
    order(rep, who, loc, bound, low, median, high)
    for s, t in zip(STAGES, (median, low, high)):
        if s not in fits:
            rep.skipped("%s: %s" % (who, NAMES[s]), "training not recognised")
            continue
        rep.guard("%s: %s" % (who, NAMES[s]), stage, rep, who, bound, s, fits[s], t, low, median, loc)
    rep.guard(who + ": distribution", distribution, rep, who, bound, it, st, events, items)


def order(rep, who, loc, bound, low, median, high):
    def steps(w):
        r = w.reader()
        return [w.l] + [r.value(t) for t in (low, median, high)] + ([w.u] if bound == "B" else [])

    names = ["lower bound", "lower quantile", "median", "upper quantile"] + (["upper bound"] if bound == "B" else [])
    for i, (x, y) in enumerate(zip(names, names[1:])):
        def fn(w, i=i):
            vs = steps(w)
            d = w.a.sub(vs[i + 1], vs[i])
            return None if w.a.sign(d) > 0 else w.a.show(d)
        conclude(rep, ORDER, "%s: %s above %s" % (who, y, x), loc, bound, fn, "the difference may be zero or negative (%s)")


def stage(rep, who, bound, s, fit, predicted, low, median, loc):
    x, y, e = fit
    where = e.loc()

    def undone(w):
        m = w.reader().value(median)
        lo, up = w.ranges(m)[s]
        target = w.between(lo, up)
        z = w.reader(y=target).value(y)
        out = w.reader(**{s: z}).value(predicted)
        if w.a.equal(out, target):
            return None
        # a distance measured in the one between median and lower quantile is a construct of its own
        units = w.a.add(m, w.a.div(w.a.sub(target, m), w.a.sub(m, w.reader().value(low))))
        return w.a.show(out), ", unit of the distance" if w.a.equal(out, units) else ""

    what = "%s: %s" % (who, NAMES[s])
    conclude(rep, UNDO, what, loc, bound, undone, "a model that learned the target exactly predicts %s instead of the target")

    masks = []
    selections(x, masks, set())
    selections(y, masks, set())
    rows, targets = {}, {}
    masks_of(x, rows)
    masks_of(y, targets)
    rep.ok(ROWS, what + ", aligned")
    if len(set(rows) | set(targets)) > 1:
        odd = [t for u, t in sorted(targets.items()) if u not in rows] or list(rows.values())
        rep.add(ROWS, what + ", aligned", where, "%s comes from other rows than the features" % show(odd[0], 2))
    for inside in (True, False):
        if s == "est_median" and not inside:
            continue

        def kept(w, inside=inside):
            m = w.reader().value(median)
            lo, up = w.ranges(m)[s]
            if not inside:
                lo, up = (m, w.top()) if s == "est_lowq" else (w.l, m)
            r = w.reader(y=w.between(lo, up))
            got = [r.truth(c) for c in masks]
            return None if all(got) == inside else "left out" if inside else "used"

        if masks or not inside:
            side = "rows of its side" if inside else "rows of the other side"
            conclude(rep, ROWS, "%s, %s" % (what, side), where, bound, kept, side + " are %s")


def distribution(rep, who, bound, it, st, events, items):
    made = {}
    for e in events:
        if e.kind == "icall" and e.data["fi"].name == "__init__" and isinstance(e.data["selfv"], Obj):
            made[e.data["selfv"].oid] = e
    d = items[3]
    e = made.get(getattr(d, "oid", None))
    if e is None:
        rep.skipped(who + ": distribution", "construction not recognised")
        return
    params = [a.arg for a in e.data["fi"].node.args.args][1:]
    given = dict(zip(params, e.data["args"]))
    given.update(e.data["kwargs"])
    low, median, high = items[:3]
    want = {"alpha": T("sym", "alpha"), "qv_low": low, "qv_median": median, "qv_high": high, "l": T("sym", "l"), "u": T("sym", "u")}
    for n in params:
        if n not in want:
            continue
        t = want[n] if isinstance(want[n], T) else it.term(want[n], st)
        if n not in given:
            rep.ok(SAME, "%s: %s" % (who, n))
            rep.add(SAME, "%s: %s" % (who, n), e.loc(), "the distribution is made without %s" % n)
            continue
        got = it.term(given[n], st)

        def fn(w):
            r = w.reader()
            return None if got is t or w.a.equal(r.value(got), r.value(t)) else show(got, 3)
        conclude(rep, SAME, "%s: %s" % (who, n), e.loc(), bound, fn, "the distribution is made with %s")


def run(p, rep, tier):
    rep.rule(ORDER, "predicted quantiles lie in ascending order between the bounds, whatever the three models predict")
    rep.rule(UNDO, "the transformation of predictions is the inverse of the one applied to the targets of the same model")
    rep.rule(ROWS, "each model is trained with the features and targets of exactly the rows on its side of the median")
    rep.rule(SAME, "the returned distribution is made of the returned quantiles, their level and the bounds")
    for c in chains(p):
        rep.count("classes")
        for bound, label in BOUNDS:
            rep.guard("%s, %s" % (world.short(c), label), check, rep, p, c, bound, label)
    rep.floor(ORDER, 5)
    rep.floor(UNDO, 4)
    rep.floor(ROWS, 6)
    rep.floor(SAME, 6)
