"""C04: predicting leaves the model as it was."""
from .. import world
from ..framework import call_path, parallel
from ..state import Arr, Obj

WRITE = "model-attribute-written"
MUT = "model-data-written-in-place"
STALE = "leftover-of-earlier-call-read"
GLOB = "shared-state-written"
USE = world.APPLY + ("get_feature_importances", "required_columns")


def check(rep, p, cls):
    life = world.Life(p, cls, None)
    life.construct()
    v, s, evs = life.run("fit")
    if s is None:
        rep.skipped(world.short(cls), "fit always raises")
        return
    it = life.it
    oids, cids = it.reach(life.obj, life.st)
    # memory that belongs to the caller is the subject of the no-write-to-caller rule
    fitted = life.st
    learned = {(o, n) for o in oids for n in it.fields(o, fitted)}
    for m in USE:
        if not life.has(m):
            continue
        name = "%s.%s" % (world.short(cls), m)
        life.st = fitted
        v, s, evs = life.run(m, keep=True, prefix="new_")
        written = {}
        for ev in evs:
            if ev.kind in ("setattr", "delattr"):
                o = ev.data["obj"]
                if o.oid not in oids:
                    continue
                rep.ok(WRITE)
                if (o.oid, ev.data["name"]) in learned:
                    if unchanged(it, (o.oid, ev.data["name"]), fitted, s):
                        continue
                    rep.add(WRITE, "%s %s.%s" % (name, it.objs[o.oid].cls.name, ev.data["name"]), ev.where(),
                            "%s changes the learned attribute '%s'" % (m, ev.data["name"]), call_path(ev))
                else:
                    written[(o.oid, ev.data["name"])] = ev
            elif ev.kind == "mutate":
                rep.ok(MUT)
                if it.closure_cells(ev.data["target"]) & cids:
                    rep.add(MUT, "%s %s" % (name, ev.fi.qualname.replace("cyclic_boosting.", "")), ev.where(),
                            "%s (%s) writes into an array or container the model holds" % (m, ev.data["how"]),
                            call_path(ev))
            elif ev.kind == "globalwrite":
                rep.add(GLOB, "%s %s" % (name, ev.data["name"]), ev.where(),
                        "%s changes module or class level state" % m, call_path(ev))
        rep.ok(WRITE, name)
        rep.ok(MUT, name)
        rep.ok(GLOB, name)
        rep.functions |= it.inlined
        if s is None or not written:
            rep.ok(STALE, name)
            continue
        # transient attributes: a second call must not look at what the first one left behind
        left = {k: s.get(("f",) + k) for k in written}
        for m2 in USE:
            if not life.has(m2):
                continue
            life.st = s
            _, _, evs2 = life.run(m2, keep=False, prefix="later_")
            fresh = set()
            for ev in evs2:
                if ev.kind in ("setattr", "delattr"):
                    fresh.add((ev.data["obj"].oid, ev.data["name"]))
                elif ev.kind in ("getattr", "hasattr") and isinstance(ev.data["obj"], Obj):
                    k = (ev.data["obj"].oid, ev.data["name"])
                    if k in left and k not in fresh:
                        rep.add(STALE, "%s then %s: %s" % (name, m2, k[1]), ev.where(),
                                "%s reads the attribute '%s' that an earlier %s left behind" % (m2, k[1], m), call_path(ev))
            rep.ok(STALE, "%s then %s" % (name, m2))


def unchanged(it, key, before, after):
    """The attribute holds at the end of the call what it held before."""
    if after is None:
        return False
    a, b = before.get(("f",) + key), after.get(("f",) + key)
    if a is None or b is None:
        return a is b
    if a is b or it.same(a, b):
        return True
    if isinstance(a, Arr) and isinstance(b, Arr):
        return it.term(a, before) is it.term(b, after)
    return False


def run(p, rep, tier):
    rep.rule(WRITE, "no prediction entry point assigns or deletes an attribute that training left on the model or on any "
                    "object reachable from it")
    rep.rule(MUT, "no in-place write during a prediction entry point may reach an array or container reachable from the model")
    rep.rule(STALE, "attributes a prediction entry point does leave behind are rewritten before any later entry point reads them")
    rep.rule(GLOB, "no prediction entry point writes module or class attributes")
    classes = world.estimators(p) + world.smoothers(p) + world.transformers(p) + world.chains(p)
    rep.count("classes", len(classes))
    parallel(rep, p, classes, check, world.short)
