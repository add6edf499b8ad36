"""C13: pipelines pass on every option."""
from .. import world
from ..framework import call_path, parallel
from ..interp import Interp
from ..state import Obj, PhiV, Seq, State, UNBOUND
from ..program import AnalysisBroken

FORWARD = "option-not-forwarded"
STEPS = "pipeline-steps"
RENAMED = {"n_bins": "number_of_bins"}
# the binner has options of the same name that the pipelines leave at their defaults on purpose
BINNER_OPTIONS = ("n_bins", "feature_properties", "inplace")
PREFIX = "pipeline_"


def builders(p):
    out = []
    for m in p.modules.values():
        for n, fi in sorted(m.functions.items()):
            if n.startswith(PREFIX):
                cls = [c for c in world.estimators(p) if c.name == n[len(PREFIX):]]
                if cls:
                    out.append((fi, cls[0]))
    return out


def generic(p):
    for m in p.modules.values():
        if "pipeline_CB" in m.functions:
            return m.functions["pipeline_CB"]
    raise AnalysisBroken("no function pipeline_CB")


def steps_of(it, v, st):
    """Objects in the step list of a Pipeline call, in order."""
    out = []
    if isinstance(v, PhiV):
        return steps_of(it, v.a, st)
    if isinstance(v, Obj):
        return [v]
    if isinstance(v, Seq):
        c = it.content(v.cid, st)
        if isinstance(c, tuple) and c[0] == "lit":
            for x in c[1]:
                for y in (x if isinstance(x, tuple) else (x,)):
                    out += steps_of(it, y, st)
    return out


def check(rep, p, item):
    fi, cls = item
    g = generic(p)
    it = Interp(p)
    st = State(it.root)
    options = [n for n in g.all_params if n != g.all_params[0]]
    kw = {n: it.sym(st, n, label="param:" + n) for n in options}
    terms = {n: it.term(v, st) for n, v in kw.items()}
    v, s = it.call_entry(fi, st, None, kwargs=kw)
    rep.functions |= it.inlined
    name = fi.name
    if s is None:
        rep.ok(STEPS, name)
        rep.add(STEPS, name, fi.loc(), "%s always raises an error" % name)
        return
    news = {}
    for ev in it.events:
        if ev.kind == "new":
            news.setdefault(ev.data["obj"].oid, ev)
    pipes = [ev for ev in it.events if ev.kind == "call" and ev.data["q"] in (
        "sklearn.pipeline.Pipeline", "sklearn.pipeline.make_pipeline")]
    steps = []
    for ev in pipes:
        for a in list(ev.data["args"]) + list(ev.data["kwargs"].values()):
            steps += steps_of(it, a, s)
    classes = [news[o.oid].data["cls"] for o in steps if o.oid in news]
    trans = set(world.transformers(p))
    rep.ok(STEPS, name)
    if not pipes:
        rep.skipped(name, "no sklearn pipeline construction recognised")
        return
    if len(classes) != len(steps) or not classes:
        rep.skipped(name, "steps of the pipeline not resolved")
        return
    want = [c for c in classes if c in trans or c is cls]
    if cls not in classes or not any(c in trans for c in classes[:classes.index(cls)]) or classes[-1] is not cls:
        rep.add(STEPS, name, fi.loc(), "the pipeline consists of %s, expected a binner followed by %s"
                % ([c.name for c in classes], cls.name))
        return
    for o, c in zip(steps, classes):
        if c not in want:
            continue
        ev = news[o.oid]
        ctor = c.lookup("__init__")[2]
        bound = dict(zip(ctor.all_params[1:], ev.data["args"]))
        bound.update(ev.data["kwargs"])
        for n in ctor.all_params[1:]:
            src = RENAMED.get(n, n)
            if src not in terms or (c in trans and n not in BINNER_OPTIONS):
                continue
            inst = "%s %s(%s)" % (name, c.name, n)
            rep.ok(FORWARD, inst)
            if n not in bound:
                rep.add(FORWARD, inst, ev.where(), "option %s of %s is not passed to %s" % (src, name, c.name), call_path(ev))
                continue
            t = it.term(bound[n], s)
            if t is not terms[src]:
                rep.add(FORWARD, inst, ev.where(), "option %s of %s receives %s" % (n, c.name, str(t)[:80]), call_path(ev))


def run(p, rep, tier):
    rep.rule(FORWARD, "every option a pipeline function shares with its estimator or binner reaches it unchanged")
    rep.rule(STEPS, "the pipeline is a binner followed by the estimator the function is named after")
    items = builders(p)
    rep.count("pipeline functions", len(items))
    parallel(rep, p, items, check, lambda i: i[0].name)
    rep.floor(FORWARD, 100)
    rep.floor(STEPS, 10)
