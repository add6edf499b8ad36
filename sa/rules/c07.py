"""C07: unusable targets are refused."""
import math

from .. import world
from ..framework import parallel
from ..parteval import PartEval
from ..terms import T

TARGET = "bad-target-accepted"
EMPTY = "empty-data-accepted"
CLEAN = "refused-training-changes-model"

NAN = ("not a number", math.nan)
CLASSES = {
    "LogLinkMixin": [NAN, ("negative", -1.0), ("slightly negative", -0.25)],
    "LogitLinkMixin": [NAN, ("negative", -1.0), ("fractional", 0.5), ("above one", 2.0), ("infinite", math.inf)],
    "IdentityLinkMixin": [NAN, ("infinite", math.inf), ("minus infinite", -math.inf)],
    "count": [NAN, ("negative", -1.0), ("slightly negative", -0.25)],
}


def target_kind(p, cls):
    names = [b.name for b in cls.mro if not isinstance(b, str)]
    for n in ("LogLinkMixin", "IdentityLinkMixin"):
        if n in names:
            return n
    if "LogitLinkMixin" in names:
        # classifiers have 0/1 targets; the dispersion model has count targets
        return "LogitLinkMixin" if any("Classifier" in b for b in cls.ext_bases()) else "count"
    return None


def refused(rep, p, cls, m, syms, value, empty, name, rule, what):
    life = world.Life(p, cls)
    if not life.has(m):
        return
    life.construct()
    pe = PartEval(syms, value, empty)
    life.it.assume = pe.ask
    before = life.st
    v, s, evs = life.run(m)
    rep.ok(rule, name)
    rep.functions |= life.it.inlined
    if s is not None:
        for ev in evs:
            if ev.kind == "raise" and any(pe.open(t) for t, _ in ev.facts.items()):
                rep.skipped(name, "the condition of the refusal is outside the supported vocabulary")
                return None
        fi = life.it.method(cls, m)
        rep.add(rule, name, fi.loc(), "%s completes although the target contains a value that is %s" % (m, what)
                if not empty else "%s completes although %s" % (m, what))
        return None
    return evs


def check(rep, p, cls):
    kind = target_kind(p, cls)
    y, X = T("sym", "y"), T("sym", "X")
    used = predict_reads(p, cls)
    for m in world.LEARN:
        for what, value in CLASSES.get(kind, ()):
            name = "%s.%s %s target" % (world.short(cls), m, what)
            evs = refused(rep, p, cls, m, [y], value, False, name, TARGET, what)
            if evs is None:
                continue
            rep.ok(CLEAN, name)
            for ev in evs:
                if ev.kind == "setattr" and ev.data["name"] in used and ev.data["obj"].oid == used[ev.data["name"]]:
                    rep.add(CLEAN, name + " " + ev.data["name"], ev.where(),
                            "'%s', which predictions read, is replaced before the bad target is refused" % ev.data["name"])
                    break
        refused(rep, p, cls, m, [y], 0.0, True, "%s.%s empty target" % (world.short(cls), m), EMPTY,
                "the target has no elements")
        refused(rep, p, cls, m, [X], 0.0, True, "%s.%s empty features" % (world.short(cls), m), EMPTY,
                "the features have no rows")


def predict_reads(p, cls):
    """Attributes of the trained object itself that predict reads -> object id."""
    life = world.Life(p, cls)
    life.construct()
    oid = life.obj.oid
    v, s, evs = life.run("fit")
    if s is None:
        return {}
    v, s, evs = life.run("predict", keep=False)
    return {e.data["name"]: oid for e in evs if e.kind == "getattr" and getattr(e.data["obj"], "oid", None) == oid}


def run(p, rep, tier):
    rep.rule(TARGET, "assuming one target element lies in a value class outside the model's domain, every path of training "
                     "ends in an exception")
    rep.rule(EMPTY, "assuming the target or the features have no rows, every path of training ends in an exception")
    rep.rule(CLEAN, "no attribute that prediction reads is replaced before the refusal")
    classes = world.estimators(p)
    rep.count("classes", len(classes))
    parallel(rep, p, classes, check, world.short)
    rep.floor(TARGET, 40)
    rep.floor(EMPTY, 30)
