"""C24: training hands back the trained object."""
from .. import world
from ..framework import parallel
from ..state import Obj

RULE = "fit-returns-something-else"


def check(rep, p, cls):
    life = world.Life(p, cls)
    life.construct()
    v, s, evs = life.run("fit")
    name = world.short(cls) + ".fit"
    rep.functions |= life.it.inlined
    if s is None:
        rep.skipped(name, "always raises")
        return
    rep.ok(RULE, name)
    v = life.it.settle(v, s)
    if not (isinstance(v, Obj) and v.oid == life.obj.oid):
        fi = life.it.method(cls, "fit")
        rep.add(RULE, name, fi.loc(), "a path through fit returns something other than the object itself")


def run(p, rep, tier):
    rep.rule(RULE, "on every path that does not raise, the value of fit is the object it was called on")
    classes = world.estimators(p) + world.smoothers(p) + world.transformers(p) + world.chains(p)
    rep.count("classes", len(classes))
    parallel(rep, p, classes, check, world.short)
