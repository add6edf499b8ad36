"""C02: nothing is predicted before training."""
from .. import world
from ..core import Dead
from ..framework import call_path, parallel

RULE = "unfitted-use-returns"
USE = world.APPLY + ("get_feature_importances",)


def delegated(it):
    """Calling predict/transform on an object supplied by the user: that object refuses when it was not trained."""
    def hook(q, args, kwargs, st, fr, e):
        if q in ("meth.predict", "meth.transform", "meth.predict_proba", "meth.predict_extended") and args:
            if any(r.startswith("param:") for r in it.roots(args[0], st)):
                raise Dead("NotFitted(delegated)", e)
        return None
    return hook


def stateless(p, cls):
    """fit neither stores anything nor delegates."""
    life = world.Life(p, cls)
    life.construct()
    v, s, evs = life.run("fit")
    for ev in evs:
        if ev.kind in ("setattr", "mcall", "mutate"):
            return False
    return s is not None


def check(rep, p, cls):
    for m in USE:
        life = world.Life(p, cls)
        if not life.has(m):
            continue
        life.construct()
        life.it.ext_hook = delegated(life.it)
        v, s, evs = life.run(m)
        name = "%s.%s" % (world.short(cls), m)
        rep.ok(RULE, name)
        rep.functions |= life.it.inlined
        if s is not None:
            if stateless(p, cls):
                rep.count("stateless_classes")
                continue
            fi = life.it.method(cls, m)
            rets = [ev for ev in evs if ev.kind == "return" and ev.fi.node is fi.node]
            rep.add(RULE, name, fi.loc(), "a freshly constructed object reaches the end of %s without being refused" % m,
                    ["return at %s" % r.where() for r in rets])


def run(p, rep, tier):
    rep.rule(RULE, "interpreting the method from the abstract state the constructor leaves behind, every path ends in an "
                   "exception (explicit check, missing attribute, or the refusal of a user-supplied sub-estimator)")
    classes = world.estimators(p) + world.smoothers(p) + world.transformers(p) + world.chains(p)
    rep.count("classes", len(classes))
    parallel(rep, p, classes, check, world.short)
