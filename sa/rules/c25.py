"""C25: observing the training and plotting only look."""
import ast

from .. import world
from ..framework import call_path, parallel
from ..interp import Interp
from ..state import Obj, State
from ..terms import T, show, walk

PLOT = "plot-writes-what-it-shows"
OBSERVER = "observer-writes-what-it-sees"
SNAPSHOT = "observer-shares-model-parts"
INFLUENCE = "prediction-depends-on-observers"
USE = world.APPLY + ("get_feature_importances",)
OBSERVERS = "cyclic_boosting.observers"


# ------------------------------------------------------------------- plots
def plot_functions(p):
    out = []
    for m in sorted(p.modules.values(), key=lambda m: m.name):
        if m.name.startswith("cyclic_boosting.plots"):
            out += [f for n, f in sorted(m.functions.items())]
    return out


def shown(p, it, st, name):
    """An unknown trained feature or filled observer."""
    feature, observer = p.cls("cyclic_boosting.features.Feature"), p.cls(OBSERVERS + ".PlottingObserver")
    if name == "feature":
        return it.new_obj(feature, "param:feature", closed=False)
    o = it.new_obj(observer, "param:plot_observer", closed=False)
    f = it.new_obj(feature, "param:plot_observer.features[]", closed=False)
    st.put(("f", o.oid, "features"), it.new_seq(st, "list", [f], label="param:plot_observer.features"))
    return o


def check_plot(rep, p, fi):
    it = Interp(p)
    st = State(it.root)
    kw = {n: shown(p, it, st, n) for n in fi.all_params if n in ("feature", "plot_observer")}
    it.call_entry(fi, st, None, kwargs=kw)
    data = set(fi.all_params) if kw and not fi.name.startswith("_") else ()
    short = fi.qualname.replace("cyclic_boosting.", "")
    for ev in it.events:
        if ev.kind == "mutate":
            rep.ok(PLOT)
            bad = sorted(r for r in ev.data["roots"] if r in data or r.startswith("param:"))
            if bad:
                rep.add(PLOT, "%s %s" % (short, "/".join(bad)), ev.where(),
                        "%s writes into what is plotted (%s)" % (ev.data["how"], ", ".join(bad)), call_path(ev))
        elif ev.kind in ("setattr", "delattr") and isinstance(ev.data["obj"], Obj):
            label = it.objs[ev.data["obj"].oid].label or ""
            rep.ok(PLOT)
            if label.startswith("param:"):
                rep.add(PLOT, "%s %s.%s" % (short, label, ev.data["name"]), ev.where(),
                        "plotting changes the attribute '%s' of %s" % (ev.data["name"], label[6:]), call_path(ev))
    rep.ok(PLOT, short)
    rep.functions |= it.inlined


# --------------------------------------------------------------- observers
def check_observer(rep, p, cls):
    ocls = p.cls(OBSERVERS + ".PlottingObserver")
    held = []

    def observers(it, st):
        held.append(it.construct(ocls, st, {}, label="observer"))
        return it.new_seq(st, "list", [held[0]])

    life = world.Life(p, cls, {"observers": observers})
    life.construct()
    v, s, evs = life.run("fit")
    name = world.short(cls)
    if s is None:
        rep.skipped(name, "fit always raises")
        return
    it, obs = life.it, held[0]
    own_o, own_c = it.reach(obs, s)
    calls = [e for e in evs if e.kind == "icall" and isinstance(e.data["selfv"], Obj) and e.data["selfv"].oid == obs.oid]
    if not calls:
        rep.skipped(name, "no call of the observer found")
        return
    ids = {id(e) for e in calls}
    open_, fresh = None, set()
    for ev in evs:
        if open_ is None and id(ev) in ids:
            open_, fresh = ev, set()
        elif ev.kind == "iret" and open_ is not None and ev.data["frame"] is open_.data["frame"]:
            open_ = None
        if open_ is None:
            continue
        if ev.kind == "new":
            fresh.add(ev.data["obj"].oid)
        elif ev.kind in ("setattr", "delattr"):
            rep.ok(OBSERVER)
            o = ev.data["obj"].oid
            if o != obs.oid and o not in fresh:
                rep.add(OBSERVER, "%s %s.%s" % (name, it.objs[o].cls.name, ev.data["name"]), ev.where(),
                        "the observer changes the attribute '%s' of a %s" % (ev.data["name"], it.objs[o].cls.name), call_path(ev))
        elif ev.kind == "mutate":
            rep.ok(OBSERVER)
            old = {c for c in it.closure_cells(ev.data["target"]) if c <= open_.data["ncell"]}
            if old - own_c:
                rep.add(OBSERVER, "%s %s" % (name, ev.fi.qualname.replace("cyclic_boosting.", "")), ev.where(),
                        "the observer writes (%s) into data of the training" % ev.data["how"], call_path(ev))
    rep.ok(OBSERVER, name)
    f1, f2 = it.fields(obs.oid, s).get("features"), it.fields(life.obj.oid, s).get("features")
    if f1 is not None and f2 is not None:
        mine, model = it.reach(f1, s), it.reach(f2, s)
        both = [it.objs[o].cls.name for o in sorted(mine[0] & model[0], key=str)]
        if both:
            ev = [e for e in evs if e.kind == "setattr" and e.data["obj"].oid == obs.oid and e.data["name"] == "features"]
            rep.add(SNAPSHOT, "%s %s" % (name, both[0]), ev[-1].where() if ev else ocls.module.relpath,
                    "the observer keeps the model's own %s, not a copy" % both[0])
        else:
            rep.ok(SNAPSHOT, name)
    rep.functions |= it.inlined


# --------------------------------------------------------------- influence
def mentions(t, mu, what):
    return any(x is what for x in walk(t, mu))


def check_influence(rep, p, cls):
    life = world.Life(p, cls)
    life.construct()
    if "observers" not in life.params:
        return
    name = world.short(cls)
    what = T("sym", "observers")
    v, s, evs = life.run("fit")
    if s is None:
        rep.skipped(name, "fit always raises")
        return
    it, fitted = life.it, life.st
    read = set()
    for m in USE:
        if not life.has(m):
            continue
        life.st = fitted
        v, s, uevs = life.run(m, keep=False, prefix="use_")
        if s is None:
            continue
        read |= {(e.data["obj"].oid, e.data["name"]) for e in uevs if e.kind == "getattr" and isinstance(e.data["obj"], Obj)}
        for label, t in results(it, v, s):
            w = influenced(t, it.mu, what)
            if w is not None:
                rep.add(INFLUENCE, "%s.%s%s" % (name, m, label), cls.lookup(m)[2].loc(),
                        "the result depends on whether there are observers, through %s" % show(w, 2)[:150])
            else:
                rep.ok(INFLUENCE, "%s.%s%s" % (name, m, label))
    for ev in evs:
        if ev.kind == "loopcond":
            rep.ok(INFLUENCE)
            if influenced(ev.data["cond"], {}, what) is not None:
                rep.add(INFLUENCE, "%s %s" % (name, ev.fi.name), ev.where(), "the number of iterations depends on the observers",
                        call_path(ev))
    # what is done once per observer
    inside = set()
    for ev in evs:
        if ev.kind == "iter" and mentions(ev.data["source"], {}, what):
            for b in getattr(ev.node, "body", ()):
                inside |= {id(n) for n in ast.walk(b)}
    for ev in evs:
        if ev.kind in ("setattr", "delattr", "mutate") and inside & ({id(ev.node)} | {id(n) for _, n in ev.stack}):
            rep.ok(INFLUENCE)
            if ev.kind == "mutate":
                bad = it.closure_cells(ev.data["target"]) & it.reach(life.obj, fitted)[1]
            else:
                bad = (ev.data["obj"].oid, ev.data["name"]) in read
            if bad:
                rep.add(INFLUENCE, "%s %s" % (name, ev.fi.qualname.replace("cyclic_boosting.", "")), ev.where(),
                        "each observer changes what predictions are made from", call_path(ev))
    rep.functions |= it.inlined


def results(it, v, st):
    if isinstance(v, Obj):
        return [("." + n, it.term(f, st)) for n, f in sorted(it.fields(v.oid, st).items()) if not isinstance(f, Obj)]
    return [("", it.term(v, st))]


def influenced(t, mu, what):
    """The term through which t depends on what; choices between equal values do not count."""
    seen, todo = {}, [(t, t)]
    while todo:
        x, via = todo.pop()
        if x in seen:
            continue
        seen[x] = via
        if x is what:
            return via
        if x.op == "phi" and mentions(x.args[0], {}, what) and last(x.args[1], mu) == last(x.args[2], mu):
            todo += [(k, x) for k in x.args[1:]]
            continue
        kids = mu[x] if x.op == "mu" and x in mu else x.kids()
        todo += [(k, x if x.op in ("phi", "mu", "upd") else via) for k in kids if isinstance(k, T)]
    return None


def last(x, mu):
    """What was assigned last, for values assigned to each member of a collection in turn."""
    if x.op == "phi":
        a, b = last(x.args[1], mu), last(x.args[2], mu)
        return a if a == b else {x}
    if x.op == "mu" and x in mu:
        b = mu[x][1]
        if isinstance(b, T) and b.op == "const":
            return {b}
    return {x}


def run(p, rep, tier):
    rep.rule(PLOT, "no plotting function writes an attribute or into an array of the feature, observer or arrays it is given")
    rep.rule(OBSERVER, "inside the methods of an observer called by training, only the observer itself is written")
    rep.rule(SNAPSHOT, "the features an observer keeps share no object with those of the model")
    rep.rule(INFLUENCE, "no value of a prediction, contribution or importance and no number of iterations depends on the observers")
    parallel(rep, p, plot_functions(p), check_plot, lambda f: f.qualname)
    ests = world.estimators(p)
    parallel(rep, p, ests, check_observer, world.short)
    parallel(rep, p, ests, check_influence, world.short)
    rep.floor(PLOT, 20)
    rep.floor(OBSERVER, 20)
    rep.floor(INFLUENCE, 40)
