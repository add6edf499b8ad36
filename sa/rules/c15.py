"""C15: the flags of a feature select the documented smoother."""
from ..bits import Forms, NoForm
from ..framework import parallel
from ..interp import Interp
from ..program import AnalysisBroken
from ..state import K, State, Obj
from ..terms import T
from .c16 import masks, resolver, test_of, show
from .. import world

ONE = "one-dimensional-smoother"
WRAP = "regularisation-wrapper"
MULTI = "multidimensional-smoother"
OWN = "explicit-smoother"
MONO = "monotone-direction"
CHOICES = ("SmootherChoiceWeightedMean", "SmootherChoiceGroupBy")
TABLE = (  # first flag that is set decides
    ("IS_LINEAR", ("LinearExtrapolator", None)),
    ("IS_SEASONAL", ("SeasonalSmoother", None)),
    ("IS_MONOTONIC INCREASING", ("IsotonicRegressor", True)),
    ("IS_MONOTONIC DECREASING", ("IsotonicRegressor", False)),
    ("IS_MONOTONIC", ("IsotonicRegressor", "auto")),
    ("IS_CONTINUOUS", ("OrthogonalPolynomialSmoother", None)),
    ("IS_ORDERED", ("WeightedMeanSmootherNeighbors", None)),
    ("", ("WeightedMeanSmoother", None)),
)
REG = (("IS_LINEAR", "extrapolating"), ("IS_SEASONAL", "interpolating"), ("IS_CONTINUOUS", "interpolating"), ("", "discontinuous"))
WRAPPER = {(False, False): None, (True, False): "NormalizationSmoother", (False, True): "RegressionTypeSmoother",
           (True, True): "NormalizationRegressionTypeSmoother"}


def regions(f, x, m, table, within=True):
    """Condition under which each row of a first-match table applies."""
    rest = within
    for flags, out in table:
        c = True
        for n in flags.split():
            c = f.dd.conj(c, test_of(f, x, m[n]))
        yield f.dd.conj(rest, c), out
        rest = f.dd.conj(rest, f.dd.neg(c))


class Case(object):
    """choice_fct of one class for one shape of feature group and fixed switches."""

    def __init__(self, p, cls, dims, norm, reg, explicit=False):
        self.p, self.cls, self.dims, self.explicit, self.norm = p, cls, dims, explicit, norm
        self.it = it = Interp(p)
        st = State(it.root)
        names = [K("f%d" % i) for i in range(dims)]
        self.xs = [T("sym", "flags%d" % i) for i in range(dims)]
        it.scalars.update(self.xs)
        self.f = Forms(self.xs, resolver(it, p))
        self.own = None
        ex = K(None)
        words = set(self.xs)
        it.assume = lambda t: "builtins.int" in str(t.args[1]) if t.op == "isinstance" and t.args[0] in words else None
        if explicit:
            self.own = it.sym(st, "own_smoother", label="param:own")
            ex = it.new_seq(st, "dict", [(it.new_seq(st, "tuple", names), self.own)])
            own = it.term(self.own, st)
            it.assume = lambda t: (True if t.op == "isinstance" and t.args[0] is own and "AbstractBinSmoother" in str(t.args[1]) else
                                   False if t.op == "isinstance" and t.args[0] is own else
                                   False if t.op in ("is", "cmp") and own in t.args and T("const", None) in t.args else None)
        self.obj = it.construct(cls, st, {"use_normalization": K(norm), "use_regression_type": K(reg), "explicit_smoothers": ex})
        fi = it.method(cls, "choice_fct")
        self.fi = fi
        a = fi.all_params[1:]
        group = it.new_seq(st, "tuple", names)
        props = it.new_seq(st, "tuple", [it.sym(st, "flags%d" % i, label="param:flags%d" % i) for i in range(dims)])
        self.v, self.st = it.call_entry(fi, st, self.obj, kwargs={a[0]: group, a[1]: props, a[2]: K(None)})
        if self.st is None:
            raise AnalysisBroken("choice_fct of %s always raises %s" % (cls.qualname, self.v.exc))

    def cname(self, o):
        return self.it.objs[o.oid].cls.name if isinstance(o, Obj) else None

    def attr(self, o, *names):
        fl = self.it.fields(o.oid, self.st)
        for n in names:
            if n in fl:
                return fl[n]
        return None

    def inner(self, o, cond):
        """Smoothers inside a wrapper: (condition, leaf)."""
        v = self.attr(o, "smoother", "est", "subestimator")
        if v is None:
            raise AnalysisBroken("%s has no inner smoother" % self.cname(o))
        return [(c, x) for c, x in self.f.leaves(v, cond) if c is not False]


def expect(rep, case, m, rule, leaves, table, x, what, label, within=True):
    """Every leaf is the table's smoother wherever its condition holds."""
    f = case.f
    for want, (cn, inc) in regions(f, x, m, table, within):
        if want is False:
            continue
        rep.ok(rule, "%s %s" % (label, cn if inc is None else "%s(increasing=%s)" % (cn, inc)))
        for c, leaf in leaves:
            both = f.dd.conj(c, want)
            if both is False:
                continue
            got = case.cname(leaf)
            inc_got = None
            if inc is not None and got == cn:
                v = case.attr(leaf, "increasing")
                inc_got = v.v if isinstance(v, K) else "?"
            if got is None:
                raise AnalysisBroken("smoother is not an object of the package")
            if cn == "SeasonalSmoother" and got == cn:
                v = case.attr(leaf, "offset_tozero")
                rep.ok(rule, "%s offset" % label)
                if isinstance(v, K) and bool(v.v) == case.norm:
                    rep.add(rule, "%s %s offset" % (label, cn), case.fi.loc(), "the seasonal smoother is %s although factors are %snormalised" % (
                        "fixed to zero on average" if v.v else "not fixed to zero on average", "" if case.norm else "not "))
            if not is_a(case.p, case.it.objs[leaf.oid].cls, cn) or inc is not None and inc_got != inc:
                bits = {i // len(case.xs): b for i, b in f.dd.one(both).items()
                        if i % len(case.xs) == case.xs.index(x)}
                rep.add(rule, "%s %s" % (label, cn if inc is None else "%s(increasing=%s)" % (cn, inc)), case.fi.loc(),
                        "%s with flags %s is smoothed by %s%s" % (what, show(bits, m), got,
                                                                  "" if inc_got is None else "(increasing=%s)" % (inc_got,)))


def is_a(p, cls, name):
    return any(getattr(c, "name", None) == name for c in cls.mro)


def choice(rep, p, item):
    cn, dims, norm, reg = item
    m = masks(p)
    case = Case(p, p.cls(cn), dims, norm, reg)
    label = "%s %dd norm=%s reg=%s" % (cn, dims, norm, reg)
    rep.functions |= case.it.inlined
    f = case.f
    try:
        leaves = list(f.leaves(case.v))
        check(rep, p, case, m, leaves, cn, dims, norm, reg, label)
    except NoForm:
        rep.skipped(label, "the choice is not a function of the flag bits")


def check(rep, p, case, m, leaves, cn, dims, norm, reg, label):
    f = case.f
    if dims > 1 and cn == "SmootherChoiceGroupBy":
        last = case.xs[-1]
        inner = []
        for c, leaf in leaves:
            rep.ok(MULTI, label)
            if case.cname(leaf) != "GroupBySmootherCB":
                rep.add(MULTI, label, case.fi.loc(), "feature groups are smoothed by %s, not by groups" % case.cname(leaf))
                return
            nd = case.attr(leaf, "n_dim")
            if isinstance(nd, K) and nd.v != dims:
                rep.add(MULTI, label + " n_dim", case.fi.loc(), "the group smoother expects %s dimensions for %d features" % (nd.v, dims))
            inner += case.inner(leaf, c)
        leaves = inner
        deciding = [last]
    else:
        deciding = case.xs
    want = WRAPPER[norm, reg]
    raw = []
    for c, leaf in leaves:
        if c is False:
            continue
        if want is None:
            raw.append((c, leaf))
            continue
        rep.ok(WRAP, label)
        if case.cname(leaf) != want:
            rep.add(WRAP, label, case.fi.loc(), "the smoother is wrapped in %s, not %s" % (case.cname(leaf), want))
            return
        raw += case.inner(leaf, c)
        if reg:
            regtype(rep, case, m, c, leaf, deciding, label)
    if want is None:
        rep.ok(WRAP, label)
        for c, leaf in raw:
            if case.cname(leaf) in WRAPPER.values():
                rep.add(WRAP, label, case.fi.loc(), "the smoother is wrapped in %s although no regularisation is asked for" % case.cname(leaf))
                return
    if dims > 1 and cn == "SmootherChoiceWeightedMean":
        for c, leaf in raw:
            rep.ok(MULTI, label)
            k = case.it.objs[leaf.oid].cls if isinstance(leaf, Obj) else None
            if k is None or k.name != "WeightedMeanSmoother" or not k.qualname.endswith("multidim.WeightedMeanSmoother"):
                rep.add(MULTI, label, case.fi.loc(), "feature groups are smoothed by %s" % (k.qualname if k else leaf))
        return
    expect(rep, case, m, ONE, raw, TABLE, deciding[-1], "the feature" if dims == 1 else "the innermost feature", label)


def regtype(rep, case, m, cond, leaf, xs, label):
    """The kind of regularisation follows the flags; for groups the least continuous feature decides."""
    v = case.attr(leaf, "reg_type")
    if v is None:
        raise AnalysisBroken("no regression type stored")
    f = case.f
    got = [(c, kind(case.it.term(x, case.st))) for c, x in f.leaves(v, cond)]
    got = [g for g in got if g[0] is not False]
    if any(k is None for _, k in got):
        # the choice is inside the term
        return
    rank = {"discontinuous": 0, "interpolating": 1, "extrapolating": 2}
    per = [list(regions(f, x, m, REG)) for x in xs]
    combos = [(True, "extrapolating")]
    for rows in per:
        combos = [(f.dd.conj(c, d), k if rank[k] < rank[o] else o) for c, k in combos for d, o in rows]
    for c, k in combos:
        if c is False:
            continue
        rep.ok(WRAP, "%s %s" % (label, k))
        for d, g in got:
            if g != k and f.dd.conj(c, d) is not False:
                rep.add(WRAP, "%s %s" % (label, k), case.fi.loc(), "regularised as %s instead of %s" % (g, k))


def kind(t):
    s = str(t)
    for k in ("discontinuous", "interpolating", "extrapolating"):
        if k in s:
            return k
    return None


def explicit(rep, p, item):
    cn, dims, norm, reg = item
    case = Case(p, p.cls(cn), dims, norm, reg, explicit=True)
    label = "%s %dd norm=%s reg=%s" % (cn, dims, norm, reg)
    rep.functions |= case.it.inlined
    f = case.f
    own = case.it.term(case.own, case.st)
    try:
        leaves = [x for x in f.leaves(case.v) if x[0] is not False]
        if WRAPPER[norm, reg] is not None:
            leaves = [y for c, x in leaves if isinstance(x, Obj) for y in case.inner(x, c)]
    except NoForm:
        rep.skipped(label, "the choice is not a function of the flag bits")
        return
    rep.ok(OWN, label)
    for c, leaf in leaves:
        if case.it.term(leaf, case.st) is not own:
            rep.add(OWN, label, case.fi.loc(), "the smoother given for the feature is not used")


def monotone(rep, p):
    """The isotonic smoother hands its direction to the isotonic regression."""
    cls = p.cls("IsotonicRegressor")
    life = world.Life(p, cls)
    life.construct()
    v, s, evs = life.run("fit")
    inc = life.it.term(life.params["increasing"], life.st)
    calls = [ev for ev in evs if ev.kind == "call" and str(ev.data.get("q", "")).startswith("sklearn.isotonic.")]
    if not calls:
        raise AnalysisBroken("no isotonic regression in IsotonicRegressor.fit")
    rep.functions |= life.it.inlined
    for ev in calls:
        q = ev.data["q"]
        kt = ev.data.get("kterms") or {}
        t = kt.get("increasing")
        if t is None:
            n = {"sklearn.isotonic.IsotonicRegression": None, "sklearn.isotonic.isotonic_regression": None}.get(q)
            pos = ev.data.get("terms") or []
            i = {"sklearn.isotonic.IsotonicRegression": 2}.get(q)
            if i is not None and len(pos) > i:
                t = pos[i]
        rep.ok(MONO, "increasing")
        if t is not inc:
            rep.add(MONO, "increasing", ev.where(), "the direction given to the isotonic regression is %s, not the option" % (t,))


def plumbing(rep, p):
    """Features are made with their own flags and group, the default being HAS_MISSING."""
    m = masks(p)
    for group, given in ((("a",), True), (("b",), True), (("a", "b"), True), (("b", "a"), True), (("a",), False)):
        it = Interp(p)
        st = State(it.root)
        x = it.sym(st, "flags", label="param:flags")
        tx = it.term(x, st)
        it.scalars.add(tx)
        it.assume = lambda t: False if t.op in ("is", "cmp") and tx in t.args and T("const", None) in t.args else None
        fi = p.func("cyclic_boosting.features.create_features")
        a = fi.all_params
        g = it.new_seq(st, "tuple", [K(k) for k in group])
        d = it.new_seq(st, "dict", [(K("a"), x)]) if given else K(None)
        sc = it.sym(st, "smoother_choice", label="param:smoother_choice")
        v, s = it.call_entry(fi, st, kwargs={a[0]: it.new_seq(st, "list", [g]), a[1]: d, a[2]: sc})
        rep.functions |= it.inlined
        calls = [ev for ev in it.events if ev.kind == "mcall" and ev.data["name"] == "choice_fct"]
        name = "create_features %s%s" % ("+".join(group), "" if given else " without properties")
        if s is None or not calls:
            rep.skipped(name, "no smoother is chosen")
            continue
        want = T("tuple", *[tx if given and k == "a" else T("const", m["HAS_MISSING"]) for k in group])
        who = T("tuple", *[T("const", k) for k in group])
        for ev in calls:
            ts = list(ev.data["terms"])
            kt = ev.data.get("kterms") or {}
            gt = ts[0] if ts else kt.get("feature_group")
            pt = ts[1] if len(ts) > 1 else kt.get("feature_property", kt.get("feature_prop"))
            if gt is None or pt is None or gt.op != "tuple" or pt.op != "tuple":
                rep.skipped(name, "arguments are not plain tuples")
                continue
            rep.ok(ONE, name)
            if gt is not who or pt is not want:
                rep.add(ONE, name, ev.where(), "the smoother of the group %s is chosen for %s with the flags %s" % (who, gt, pt))


def run(p, rep, tier):
    rep.rule(ONE, "the canonical form of the smoother chosen for one feature over the bits of its flags equals the documented table "
                  "(linear, seasonal, monotonic with direction, continuous, ordered, otherwise unordered)")
    rep.rule(WRAP, "the wrapper follows the normalisation and regression-type switches, its regression type the flags")
    rep.rule(MULTI, "feature groups get the multi-dimensional smoother of the chosen strategy; by-group smoothing follows the innermost feature")
    rep.rule(OWN, "a smoother given for a feature is the one used")
    rep.rule(MONO, "the isotonic smoother passes its direction on unchanged")
    items = [(c, d, n, r) for c in CHOICES for d in (1, 2, 3) for n in (False, True) for r in (False, True)]
    parallel(rep, p, items, choice, lambda i: "%s %dd" % i[:2])
    parallel(rep, p, [(c, d, n, r) for c in CHOICES for d in (1, 2) for n in (False, True) for r in (False, True)], explicit, lambda i: "explicit " + i[0])
    rep.guard("create_features", plumbing, rep, p)
    rep.guard("monotone direction", monotone, rep, p)
