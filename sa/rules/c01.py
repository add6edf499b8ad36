"""C01: the caller's data stay as they were."""
from .. import world
from ..framework import call_path, parallel
from ..state import K, State
from ..terms import T
from ..interp import Interp

RULE = "caller-data-written"
FUNC = "argument-written"

# modules whose exported functions take data directly from users
API_MODULES = ("cyclic_boosting.utils", "cyclic_boosting.quantile_matching", "cyclic_boosting.observers",
               "cyclic_boosting.plots", "cyclic_boosting.pipelines", "cyclic_boosting.interaction_selection",
               "cyclic_boosting.classification", "cyclic_boosting.regression", "cyclic_boosting.learning_rate")


def allowed(ev, life):
    """The documented result column of transform / fit_transform."""
    entry = ev.stack[0][0].qualname if ev.stack else ""
    idx = ev.data.get("idx")
    if idx is not None and idx is T("sym", "output_column") and ("transform" in entry):
        return True
    return False


def caller_labels(roots, data):
    return sorted(r for r in roots if r in data or r.startswith("param:"))


def check_life(rep, p, cls):
    life = world.Life(p, cls, {"inplace": K(False)})  # inplace=True asks for the write
    life.construct()
    name = world.short(cls)
    for m in world.LEARN + world.APPLY:
        if not life.has(m):
            continue
        v, s, evs = life.run(m, keep=(m in world.LEARN and m == "fit"))
        fi = life.it.method(cls, m)
        data = set(fi.all_params[1:])
        for ev in evs:
            if ev.kind != "mutate":
                continue
            rep.ok(RULE, None)
            bad = caller_labels(ev.data["roots"], data)
            if bad and not allowed(ev, life):
                rep.add(RULE, "%s.%s %s" % (name, m, "/".join(bad)), ev.where(),
                        "%s writes into memory handed in by the caller (%s)" % (ev.data["how"], ", ".join(bad)),
                        call_path(ev))
        rep.count("entry_points")
        if s is None:
            rep.count("entry_points_that_always_raise")
    rep.functions |= life.it.inlined


def check_function(rep, p, fi):
    it = Interp(p)
    st = State(it.root)
    v, s = it.call_entry(fi, st)
    data = set(fi.all_params)
    for ev in it.events:
        if ev.kind != "mutate":
            continue
        rep.ok(FUNC, None)
        bad = caller_labels(ev.data["roots"], data)
        if bad and not allowed(ev, None):
            rep.add(FUNC, "%s %s" % (fi.qualname.replace("cyclic_boosting.", ""), "/".join(bad)), ev.where(),
                    "%s writes into an argument (%s)" % (ev.data["how"], ", ".join(bad)), call_path(ev))
    rep.count("public_functions")
    rep.functions |= it.inlined


def exported(p):
    out = []
    for m in sorted(p.modules.values(), key=lambda m: m.name):
        if m.name not in API_MODULES:
            continue
        for n, f in sorted(m.functions.items()):
            if not n.startswith("_") and f.cls is None:
                out.append(f)
    return out


def run(p, rep, tier):
    rep.rule(RULE, "no in-place write performed during fit/predict/transform/... may reach memory reachable from the "
                   "arguments of that call or of the constructor (alias roots through views, asarray, .values, columns)")
    rep.rule(FUNC, "no in-place write of a public function may reach its arguments")
    classes = world.estimators(p) + world.smoothers(p) + world.transformers(p) + world.chains(p)
    rep.count("classes", len(classes))
    parallel(rep, p, classes, check_life, world.short)
    parallel(rep, p, exported(p), check_function, lambda f: f.qualname)
