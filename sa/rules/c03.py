"""C03: training again forgets the earlier training."""
from .. import world
from ..framework import parallel
from ..terms import walk
from ..state import Arr, K

RULE = "state-of-earlier-training-survives"
OLD = "old_"


def cell_terms(it, cid, st):
    c = it.content(cid, st)
    if isinstance(c, tuple):
        return [c[2]] if c[0] != "lit" and c[2] is not None else []
    return [c]


def is_old(x, end):
    """Data of the first training, or whether something was caught during it."""
    if x.op == "sym":
        return isinstance(x.args[0], str) and x.args[0].startswith(OLD)
    return x.op == "any" and x.args[0] == "exc" and end[0] < x.args[1] <= end[1]


def stale_paths(it, obj, st, end):
    """(attribute path, term) pairs of everything reachable from obj that depends on data of the first training."""
    seen = set()
    todo = [(obj, "")]
    memo = {}

    def old(t):
        r = memo.get(t)
        if r is None:
            r = memo[t] = any(is_old(x, end) for x in walk(t, it.mu))
        return r

    out = []
    while todo:
        v, path = todo.pop()
        kind = type(v).__name__
        if kind == "Obj":
            if v.oid in seen:
                continue
            seen.add(v.oid)
            for n, x in it.fields(v.oid, st).items():
                todo.append((x, path + "." + n))
        elif kind == "PhiV":
            if old(v.cond):
                out.append((path, v.cond))
            todo.append((v.a, path))
            todo.append((v.b, path))
        elif kind in ("Arr", "Seq"):
            if v.cid in seen:
                continue
            seen.add(v.cid)
            c = it.content(v.cid, st)
            if isinstance(c, tuple):
                items = c[1] if c[0] == "lit" else (c[1], c[3])
                for x in items:
                    for y in (x if isinstance(x, tuple) else (x,)):
                        if y is not None:
                            todo.append((y, path + "[]"))
                if c[0] != "lit" and c[2] is not None and old(c[2]):
                    out.append((path, c[2]))
            elif old(c):
                out.append((path, c))
        elif kind == "Partial":
            todo.extend((x, path) for x in list(v.args) + list(v.kwargs.values()) + [v.fn])
        elif kind == "Fn" and v.selfv is not None:
            todo.append((v.selfv, path))
        elif kind == "ExtMeth":
            todo.append((v.recv, path))
    return out


USE = world.APPLY + ("get_feature_importances", "get_subestimators_as_items", "required_columns",
                     "global_scale_")


def result_values(life, m):
    """Observable outcome of a public method or property of the object, with the state it is observed in."""
    fi = life.it.method(life.cls, m)
    v, s, evs = life.run(m, keep=False, prefix="new_")
    return v, s, evs


def check(rep, p, cls):
    for first in world.LEARN:
        for second in world.LEARN:
            life = world.Life(p, cls)
            if not life.has(first) or not life.has(second):
                continue
            life.construct()
            begin = life.it._nloop
            v, s, _ = life.run(first, prefix=OLD)
            end = (begin, life.it._nloop)
            pair = "%s.%s then %s" % (world.short(cls), first, second)
            if s is None:
                rep.skipped(pair, "%s always raises" % first)
                continue
            v, s, evs = life.run(second)
            rep.functions |= life.it.inlined
            if s is None:
                rep.skipped(pair, "second %s always raises" % second)
                continue
            outcomes = [(second, v, s, evs)]
            for m in USE:
                fi = life.it.method(cls, m)
                if fi is not None and fi.kind in ("function", "property"):
                    outcomes.append((m,) + result_values(life, m))
            for m, v, s, evs2 in outcomes:
                if s is None:
                    continue
                rep.ok(RULE, "%s, %s" % (pair, m))
                if m == second:
                    if type(v).__name__ == "Obj" and v.oid == life.obj.oid:
                        continue
                done = set()
                for path, t in stale_paths(life.it, v, s, end):
                    top = source(life.it, t, end)
                    if (m, top) in done:
                        continue
                    done.add((m, top))
                    fi = life.it.method(cls, m)
                    rep.add(RULE, "%s, %s" % (pair, m), fi.loc(),
                            "the result of %s%s after the second training still depends on data of the first one (%s)" % (
                                m, path, top))


def source(it, t, end):
    for x in walk(t, it.mu):
        if is_old(x, end):
            return x.args[0] if x.op == "sym" else "an exception caught during it"
    return "?"


def run(p, rep, tier):
    rep.rule(RULE, "after two trainings on different symbolic data sets, no result of a prediction, explanation or report "
                   "method depends on a symbol of the first data set")
    classes = world.estimators(p) + world.smoothers(p) + world.transformers(p) + world.chains(p)
    rep.count("classes", len(classes))
    parallel(rep, p, classes, check, world.short)
