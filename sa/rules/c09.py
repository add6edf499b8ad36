"""C09: missing and unusable feature values get the factor learned for missing values."""
from .. import world
from ..framework import Report, parallel
from ..pointwise import Pointwise, same
from ..program import Module
from ..rowkinds import KINDS, NAN, ORD, Opaque, RowKinds
from ..state import K, State
from ..terms import T, show, walk
from . import c10

MISS, USUAL, LEARN = "missing-uses-learned-factor", "usual-value-uses-smoother", "missing-bin-of-an-iteration"
BINS = "bin-of-missing-values"
KEPT, FLAG, MEAN = "kept-factor-of-missing-values", "learning-switched-off-for-group", "neutral-after-calibration"
NEW = T("sym", "new X")

SRC = """
from cyclic_boosting import flags
def last(est):
    return [f.factors_link[-1] for f in est.features]
def neutral(est):
    return est.neutral_factor_link
def flag(feature):
    return feature.missing_not_learned
def nan(feature):
    return feature.factors_link[-1]
def usual(feature):
    return feature.smoother.smoothed_y_
def off():
    return flags.MISSING_NOT_LEARNED
def on():
    return flags.HAS_MISSING
def plain():
    return flags.IS_CONTINUOUS
"""


def helper(p, name):
    m = Module("selftest", "selftest.py", "selftest.py", SRC, p)
    return m.functions[name]


def rows():
    """(description, kinds): one unusable value, alone or beside a usual one, and usual values only."""
    for k in KINDS:
        if k != ORD:
            yield k, (k,)
            yield k + " beside a usual value", (k, ORD)
            yield "a usual value beside " + k, (ORD, k)
    yield "usual", (ORD,)
    yield "usual in all columns", (ORD, ORD)


def check(rep, p, cls):
    nm = world.short(cls)
    life = world.Life(p, cls)
    life.construct()
    it = life.it
    v, s, _ = life.run("fit")
    if s is None:
        rep.skipped(nm, "training always raises")
        return
    v, s, _ = life.run("predict", keep=False, prefix="new ")
    if s is None:
        rep.skipped(nm, "prediction always raises")
        return
    fi = it.method(cls, "predict")
    where = "%s:%d" % (fi.module.relpath, fi.node.lineno)
    pw = Pointwise(it.mu, [NEW])
    used = c10.contributions(Report("none"), nm, where, pw, it.term(v, s))
    if not used:
        rep.skipped(nm, "no running sum of contributions found in the prediction")
        return
    lv, ls = it.call_entry(helper(p, "last"), life.st, None, args=[life.obj])
    nv, ns = it.call_entry(helper(p, "neutral"), life.st, None, args=[life.obj])
    if ls is None or ns is None:
        rep.skipped(nm, "no factors found")
        return
    last = it.term(lv, ls)
    last = last.args[1] if last.op == "comp" else last
    neutral = it.term(nv, ns)
    seen = set()
    for C in used:
        if C in seen:
            continue
        seen.add(C)
        for what, kinds in rows():
            rule = USUAL if what.startswith("usual") else MISS
            try:
                cases = RowKinds(pw, NEW, kinds, [last]).cases(C)
            except OverflowError:
                rep.skipped(nm, "too many cases for a row that is %s" % what)
                continue
            rep.ok(rule, "%s: %s" % (nm, what))
            bad = missing(cases, last, neutral, it, pw) if rule == MISS else usual(cases, last, neutral, it, pw)
            if bad is not None:
                rep.add(rule, nm, where, "a row whose value is %s: %s" % (what, bad))
    rep.functions |= it.inlined


def text(v):
    return show(v.term, 4)[:200] if isinstance(v, Opaque) else str(v)


def missing(cases, last, neutral, it, pw):
    for env, v in cases:
        if isinstance(v, Opaque) and same(v.term, last, it.mu):
            continue
        if isinstance(v, Opaque) and v.term is neutral and any(
                val is False and a.op == "call" and a.args[0] == "numpy.isfinite" and same(a.args[1], last, it.mu) for a, val in env.items()):
            continue
        return "contributes %s instead of the factor learned for missing values" % text(v)
    return None


def usual(cases, last, neutral, it, pw):
    looked = False
    for env, v in cases:
        if not isinstance(v, Opaque):
            return "contributes %s" % text(v)
        if pw.depends(v.term):
            looked = True
        elif v.term is neutral:
            if any(val is True and a.op == "call" and a.args[0] == "numpy.isfinite" and pw.depends(a.args[1]) for a, val in env.items()):
                return "a finite value of the smoother is replaced by the neutral factor"
        elif same(v.term, last, it.mu):
            return "contributes the factor learned for missing values"
    return None if looked else "never contributes what the smoother says for its value"


def training(rep, p):
    """One update of a feature: what the last bin, that of missing values, becomes."""
    cls = next((c for c in p.classes.values() if c.lookup("update_factors") and c.lookup("update_factors")[0] == "method"), None)
    if cls is None:
        rep.skipped("update of a feature", "no such method")
        return
    from ..interp import Interp
    it = Interp(p)
    st = State(it.root)
    o = it.construct(cls, st)
    before = T("sym", "factors before")
    st.put(("f", o.oid, "factors_link"), it.new_arr(st, before))
    fi = it.method(cls, "update_factors")
    names = fi.all_params[1:]
    if len(names) != 4:
        rep.skipped("update of a feature", "other parameters: %s" % names)
        return
    v, s = it.call_entry(fi, st, o)
    if s is None:
        rep.skipped("update of a feature", "always raises")
        return
    fv, fs = it.call_entry(helper(p, "flag"), s, None, args=[o])
    flag = it.term(fv, fs)
    now = it.term(s.get(("f", o.oid, "factors_link")), s)
    where = "%s:%d" % (fi.module.relpath, fi.node.lineno)
    vals = ends(now)
    if vals is None:
        rep.skipped("update of a feature", "the factors have another form: %s" % show(now, 3))
        return
    unf, unc, neu, rate = [T("sym", n) for n in names]
    unlast = (T("sub", unf, T("const", -1)),)
    for want in (True, False):
        rep.ok(LEARN, "flag %s" % want)
        for cond, val in vals:
            if any(c is flag and w != want or c.op == "truth" and c.args[0] is flag and w != want for c, w in cond):
                continue
            if want:
                good = val is neu
            else:
                good = val.op == "bin" and val.args[0] == "Mult" and rate in val.args[1:] and any(x in unlast for x in val.args[1:])
            if not good:
                rep.add(LEARN, "%s.update_factors" % cls.name, where, "when learning missing values is switched %s the factor of missing values becomes %s"
                        % ("off" if want else "on", show(val, 4)[:200]))
                break
    rep.functions |= it.inlined


def numbering(rep, p):
    """The bin number that a row gets in training."""
    fi = next((m.functions["multidim_binnos_to_lexicographic_binnos"] for m in p.modules.values()
               if "multidim_binnos_to_lexicographic_binnos" in m.functions), None)
    if fi is None:
        rep.skipped("bin numbers", "no such function")
        return
    from ..interp import Interp
    it = Interp(p)
    st = State(it.root)
    v, s = it.call_entry(fi, st)
    data = T("sym", fi.all_params[0])
    t = it.term(v, s) if s is not None else None
    if t is None or t.op != "tuple":
        rep.skipped("bin numbers", "no pair is returned")
        return
    pw = Pointwise(it.mu, [data])
    where = "%s:%d" % (fi.module.relpath, fi.node.lineno)
    nums, total = t.args
    for what, kinds in rows():
        rep.ok(BINS, what)
        for env, v in RowKinds(pw, data, kinds, prods(nums)).cases(nums):
            if what.startswith("usual"):
                continue
            if not (isinstance(v, Opaque) and v.term in prods(nums)):
                rep.add(BINS, fi.name, where, "a row whose value is %s gets the bin %s instead of the one behind all others" % (what, text(v)))
                break
    rep.functions |= it.inlined


def feature(p):
    """(interpreter, state, a feature)"""
    cls = next((c for c in p.classes.values() if c.lookup("update_factors") and c.lookup("update_factors")[0] == "method"), None)
    if cls is None:
        raise LookupError("no class of features")
    from ..interp import Interp
    it = Interp(p)
    st = State(it.root)
    return it, st, it.construct(cls, st), cls


def value(p, it, name, st, *args):
    v, s = it.call_entry(helper(p, name), st, None, args=list(args))
    return None if s is None else it.term(v, s)


def kept(rep, p):
    """What a feature keeps for predictions when training ends."""
    it, st, o, cls = feature(p)
    learned = T("sym", "learned")
    st.put(("f", o.oid, "fitted_aggregated"), it.new_arr(st, learned))
    for name in ("prepare_feature", "clear_feature_reference"):
        fi = it.method(cls, name)
        if fi is None:
            rep.skipped("end of training", "no method %s" % name)
            return
        where = "%s:%d" % (fi.module.relpath, fi.node.lineno)
        v, st = it.call_entry(fi, st, o)
        if st is None:
            rep.skipped("end of training", "%s always raises" % name)
            return
        t = value(p, it, "nan", st, o)
        rep.ok(KEPT, name)
        for x in c10.leaves(t):
            if x is not T("sub", learned, T("const", -1)) and learned in set(walk(x)):
                rep.add(KEPT, "%s.%s" % (cls.name, name), where, "the factor kept for missing values is %s" % show(x, 4)[:200])
        t = value(p, it, "usual", st, o)
        if t is None:
            continue
        rep.ok(KEPT, name + ": usual values")
        for x in c10.leaves(t):
            if x is learned or x.op == "call" and x.args[0] in ("meth.copy", "numpy.copy", "numpy.array", "numpy.asarray") and x.args[1] is learned:
                rep.add(KEPT, "%s.%s" % (cls.name, name), where, "the factor of missing values is among those kept for usual values")
    rep.functions |= it.inlined


def switched(rep, p):
    """Learning missing values is off for a group as soon as one of its columns is flagged so."""
    it, st, o, cls = feature(p)
    words = {n: value(p, it, n, st) for n in ("off", "on", "plain")}
    if not all(t is not None and t.op == "const" and isinstance(t.args[0], int) for t in words.values()):
        rep.skipped("flags of a group", "flags are not constants")
        return
    fi = it.method(cls, "missing_not_learned")
    where = "%s:%d" % (fi.module.relpath, fi.node.lineno) if fi is not None else cls.module.relpath
    for names in (("off",), ("on",), ("plain",), ("off", "on"), ("on", "off"), ("off", "plain"), ("plain", "off"), ("off", "off"), ("on", "plain"),
                  ("plain", "off", "plain"), ("plain", "plain", "off"), ("on", "on")):
        st.put(("f", o.oid, "feature_property"), it.new_seq(st, "tuple", [K(words[n].args[0]) for n in names]))
        t = value(p, it, "flag", st, o)
        if t is None or t.op != "const":
            rep.skipped("flags of a group", "the switch is %s" % show(t, 3) if t is not None else "no switch")
            return
        rep.ok(FLAG, ", ".join(names))
        if bool(t.args[0]) != ("off" in names):
            rep.add(FLAG, "%s.missing_not_learned" % cls.name, where, "for a group with columns that learn missing values as (%s) learning is switched %s" % (
                ", ".join(names), "off" if t.args[0] else "on"))
            break


def calibrated(rep, p, cls):
    """Calibrating the factors leaves a neutral factor of missing values neutral when these are not learned."""
    nm = world.short(cls)
    life = world.Life(p, cls)
    life.construct()
    it, st = life.it, life.st
    fi = it.method(cls, "calibrate_to_weighted_mean")
    neutral = value(p, it, "neutral", st, life.obj)
    off = value(p, it, "off", st)
    if fi is None or neutral is None or off is None or off.op != "const":
        rep.skipped(nm, "no calibration of factors")
        return
    fcls = next(c for c in p.classes.values() if c.lookup("update_factors"))
    o = it.construct(fcls, st)
    before = T("sym", "factors before")
    st.put(("f", o.oid, "feature_property"), it.new_seq(st, "tuple", [K(off.args[0])]))
    st.put(("f", o.oid, "factors_link"), it.new_arr(st, before))
    st.put(("f", o.oid, "bin_weightsums"), it.new_arr(st, T("sym", "weights of bins")))
    v, s = it.call_entry(fi, st, life.obj, args=[o])
    if s is None:
        rep.skipped(nm, "calibration always raises")
        return
    rep.ok(MEAN, nm)
    for x in c10.leaves(it.term(v, s)):
        e = end(x, before, neutral)
        if e is None:
            rep.skipped(nm, "the calibrated factors have another form: %s" % show(x, 3))
        elif e is not neutral:
            rep.add(MEAN, nm, "%s:%d" % (fi.module.relpath, fi.node.lineno), "calibration makes the factor of missing values %s" % show(e, 4)[:200])


def end(t, before, neutral):
    """The last entry of an array built from one whose last entry is neutral."""
    if t is before:
        return neutral
    if t.op == "upd":
        return t.args[2] if t.args[1].op == "const" and t.args[1].args[0] == -1 else None
    if t.op == "call" and t.args[0] in ("meth.copy", "numpy.copy", "numpy.array", "numpy.asarray"):
        return end(t.args[1], before, neutral)
    if t.op == "call" and t.args[0] == "numpy.append" and len(t.args) == 3:
        return t.args[2]
    if t.op == "call" and t.args[0] in ("numpy.concatenate", "numpy.hstack", "numpy.r_"):
        return None
    if t.op == "bin" and t.args[0] in ("Add", "Sub"):
        for x, y in (t.args[1:], t.args[:0:-1]):
            if end(x, before, neutral) is neutral and y.op != "const":
                return t
    return None


def prods(t):
    return {k for k in walk(t) if k.op == "call" and k.args[0] in ("numpy.prod", "numpy.product", "meth.prod")}


def ends(t, cond=()):
    """[(conditions, last entry)] of an array whose last entry was assigned."""
    if t.op == "phi":
        a, b = ends(t.args[1], cond + ((t.args[0], True),)), ends(t.args[2], cond + ((t.args[0], False),))
        return None if a is None or b is None else a + b
    if t.op == "upd" and t.args[1].op == "const" and t.args[1].args[0] == -1:
        v = t.args[2]
        return split(v, cond)
    return None


def split(v, cond):
    if v.op == "phi":
        return split(v.args[1], cond + ((v.args[0], True),)) + split(v.args[2], cond + ((v.args[0], False),))
    return [(cond, v)]


def run(p, rep, tier):
    rep.rule(MISS, "for a row with a value that is not a number, infinite or negative in any column of the group, every case of the feature's "
                   "contribution is the last learned factor, or neutral where that is not finite")
    rep.rule(USUAL, "for a row of usual values the contribution is what the smoother predicts for it, or neutral where that is not finite")
    rep.rule(LEARN, "an iteration sets the factor of the missing bin to its estimate times the learning rate, or to neutral when it is not to be learned")
    rep.rule(BINS, "in training a row with an unusable value in any column of the group is counted in the bin behind all others")
    rep.rule(KEPT, "when training ends a feature keeps the last learned factor for missing values, and not among those of usual values")
    rep.rule(FLAG, "learning missing values is switched off for a group exactly when one of its columns is flagged so")
    rep.rule(MEAN, "calibrating factors to a weighted mean leaves the factor of missing values neutral where these are not learned")
    rep.guard("bin numbers", numbering, rep, p)
    rep.guard("end of training", kept, rep, p)
    rep.guard("flags of a group", switched, rep, p)
    for cls in world.estimators(p):
        rep.guard(world.short(cls), calibrated, rep, p, cls)
    rep.guard("update of a feature", training, rep, p)
    parallel(rep, p, world.estimators(p), check, world.short)
    rep.floor(MISS, 100)
    rep.floor(USUAL, 20)
    rep.floor(LEARN, 2)
    rep.floor(BINS, 10)
