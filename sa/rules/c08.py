"""C08: predictions are finite numbers in the range of the model, whatever the table holds."""
from .. import world
from ..framework import parallel
from ..pointwise import INF, Pointwise, args, kws, same
from ..terms import T, show, walk

FIN, RANGE, PROBA, CLASS = "prediction-is-finite", "prediction-in-range", "probabilities-sum-to-one", "class-follows-probability"
# columns the user gives as numbers, not as features
GIVEN = ("prior_exponent_colname",)


def wanted(p, cls):
    """The range of the predictions of a model, from what it models."""
    def sub(name):
        return any(getattr(c, "name", c) == name for c in cls.mro)
    if sub("LogitLinkMixin"):
        return (0, 1)
    if sub("LogLinkMixin") or cls.name == "CBLocPoissonRegressor":
        return (0, INF)
    return None


def pointwise(life, new="new "):
    it = life.it

    def trust(t):
        return t.op == "sub" and any(k.op == "sym" and k.args[0] in GIVEN for k in walk(t.args[1]))
    syms = [T("sym", new + "X")]
    return Pointwise(it.mu, syms, trust)


def columns(t):
    """The columns of a table put together from one-dimensional arrays."""
    if t.op == "sub" and t.args[0].op == "ext" and t.args[0].args[0] == "numpy.c_" and t.args[1].op == "tuple":
        return list(t.args[1].args)
    if t.op == "call" and args(t):
        q, x, k = t.args[0], args(t)[0], kws(t)
        if x.op in ("tuple", "list"):
            if q == "numpy.column_stack" or q == "numpy.stack" and k.get("axis") is not None and k["axis"].args[0] in (1, -1):
                return list(x.args)
        if q in ("numpy.transpose", "meth.transpose"):
            return _rows(x)
    if t.op == "attr" and t.args[1] == "T":
        return _rows(t.args[0])
    return None


def _rows(t):
    if t.op in ("tuple", "list"):
        return list(t.args)
    if t.op == "call" and t.args[0] in ("numpy.array", "numpy.asarray", "numpy.vstack", "numpy.stack") and args(t) and args(t)[0].op in ("tuple", "list"):
        return list(args(t)[0].args)
    return None


def linear(t, k=1, out=None):
    """{atom or None: coefficient} of a sum."""
    out = {} if out is None else out
    if t.op == "const" and isinstance(t.args[0], (int, float)):
        out[None] = out.get(None, 0) + k * t.args[0]
    elif t.op == "bin" and t.args[0] in ("Add", "Sub"):
        linear(t.args[1], k, out)
        linear(t.args[2], k if t.args[0] == "Add" else -k, out)
    elif t.op == "un" and t.args[0] == "neg":
        linear(t.args[1], -k, out)
    else:
        out[t] = out.get(t, 0) + k
    return out


def bare(t):
    """A value without conversions of its type or container."""
    while True:
        if t.op == "call" and t.args[0] in ("numpy.asarray", "numpy.array", "meth.astype", "numpy.where") and args(t):
            xs = args(t)
            if t.args[0] == "numpy.where":
                if len(xs) == 3 and [x.args[0] if x.op == "const" else None for x in xs[1:]] == [1, 0]:
                    t = xs[0]
                    continue
                return t
            t = xs[0]
            continue
        if t.op == "phi" and [x.args[0] if x.op == "const" else None for x in t.args[1:]] == [1, 0]:
            t = t.args[0]
            continue
        return t


def check(rep, p, cls):
    nm = world.short(cls)
    life = world.Life(p, cls)
    life.construct()
    v, s, _ = life.run("fit")
    if s is None or not life.has("predict"):
        rep.skipped(nm, "training always raises")
        return
    rng = wanted(p, cls)
    terms = {}
    for m in ("predict", "predict_proba"):
        if not life.has(m):
            continue
        v, s, evs = life.run(m, keep=False, prefix="new ")
        if s is None:
            continue
        t = terms[m] = life.it.term(v, s)
        fi = life.it.method(cls, m)
        where = "%s:%d" % (fi.module.relpath, fi.node.lineno)
        pw = pointwise(life)
        parts = [t]
        if m == "predict_proba":
            parts = columns(t)
            if not parts:
                rep.skipped("%s.%s" % (nm, m), "the table of probabilities has another form: %s" % show(t, 3))
                continue
        for n, x in enumerate(parts):
            rep.ok(FIN, "%s.%s" % (nm, m))
            bad = pw.finite(x)
            if bad is not None:
                rep.add(FIN, "%s.%s" % (nm, m), where, "a row's result is not made finite when this is not: %s" % show(bad, 4)[:300])
            if rng is None:
                continue
            rep.ok(RANGE, "%s.%s" % (nm, m))
            lo, hi = pw.bounds(x)
            if lo < rng[0] or hi > rng[1]:
                rep.add(RANGE, "%s.%s" % (nm, m), where, "results must be between %s and %s, but %s can be between %s and %s"
                        % (rng[0], rng[1], show(x, 4)[:200], lo, hi))
        if m == "predict_proba":
            rep.ok(PROBA, nm)
            total = {}
            for x in parts:
                linear(x, 1, total)
            total = {k: c for k, c in total.items() if c}
            if total != {None: 1}:
                rep.add(PROBA, nm, where, "the columns %s do not add up to 1" % [show(x, 4)[:120] for x in parts])
            elif "predict" in terms and len(parts) == 2:
                rep.ok(CLASS, nm)
                c = bare(terms["predict"])
                one, zero = parts[1], parts[0]
                half = T("const", 0.5)
                ok = c.op == "cmp" and c.args[0] in ("<", "<=") and any(
                    same(c.args[1], x, life.it.mu) and same(c.args[2], y, life.it.mu) for x, y in ((half, one), (zero, one), (zero, half)))
                if not ok and c.op == "cmp":
                    rep.add(CLASS, nm, where, "class 1 is predicted when %s, but its probability is %s" % (show(c, 4)[:160], show(one, 4)[:160]))
                elif not ok:
                    rep.skipped(nm, "the predicted class has another form: %s" % show(c, 3))
    rep.functions |= life.it.inlined


def run(p, rep, tier):
    rep.rule(FIN, "every case of the value of a predicted row is finite: built from learned numbers, or guarded by a finiteness test that replaces it")
    rep.rule(RANGE, "the value bounds of a predicted row are within the range of the model")
    rep.rule(PROBA, "the columns of class probabilities are a linear form that adds up to 1")
    rep.rule(CLASS, "the predicted class is the comparison of the probability of class 1 with one half")
    parallel(rep, p, world.estimators(p), check, world.short)
    rep.floor(FIN, 12)
    rep.floor(RANGE, 7)
    rep.floor(PROBA, 1)
    rep.floor(CLASS, 1)
