"""C10: the reported contributions are the ones a prediction is made of."""
from .. import world
from ..framework import parallel
from ..pointwise import Pointwise, is_mask, same
from ..program import Module
from ..terms import T, show, walk

SUM, SHOWN = "prediction-is-sum-of-contributions", "reported-contribution-is-the-one-used"
NAMES = "reported-under-a-name-of-its-own"
SRC = """
def types(est):
    return [f.feature_type for f in est.features]
def groups(est):
    return [f.feature_group for f in est.features]
"""
NEW = T("sym", "new X")


def leaves(t, seen=None):
    """The alternatives of a value that is chosen by conditions."""
    seen = set() if seen is None else seen
    if t in seen:
        return []
    seen.add(t)
    if t.op == "phi":
        return leaves(t.args[1], seen) + leaves(t.args[2], seen)
    return [t]


def held(t, mu, pw, seen, out, want=()):
    """The values held by a container, through choices and loops."""
    if not isinstance(t, T) or t in seen:
        return out
    seen.add(t)
    if any(same(t, w, mu) for w in want):
        out.append(t)
    elif t.op == "phi":
        for k in t.args[1:]:
            held(k, mu, pw, seen, out, want)
    elif t.op == "mu" and t in mu:
        for k in mu[t]:
            held(k, mu, pw, seen, out, want)
    elif t.op == "upd" and not is_mask(t.args[1]):
        held(t.args[0], mu, pw, seen, out, want)
        held(t.args[2], mu, pw, seen, out, want)
    elif t.op == "comp":
        held(t.args[1], mu, pw, seen, out, want)
    elif t.op == "elem":
        held(t.args[0], mu, pw, seen, out, want)
    elif t.op == "dict":
        for k in t.args[1::2]:
            held(k, mu, pw, seen, out, want)
    elif t.op in ("list", "tuple"):
        for k in t.args:
            held(k, mu, pw, seen, out, want)
    elif t.op == "call" and t.args[0] in ("builtins.dict", "builtins.zip", "collections.OrderedDict"):
        for k in t.kids():
            held(k, mu, pw, seen, out, want)
    elif pw.depends(t):
        out.append(t)
    return out


def left_out(t, mu):
    """A loop filling a container in which an iteration can leave it as it was: the condition."""
    for _, m in over(t):
        while m.op == "upd":
            m = m.args[0]
        if m.op == "mu" and m in mu:
            for cond, x in over(mu[m][1]):
                if x is m and cond:
                    return cond[-1]
    return None


def over(t, cond=()):
    if t.op == "comp":
        return over(t.args[2], cond)
    if t.op == "phi":
        if t.args[0].op == "any":
            return over(t.args[1], cond) + over(t.args[2], cond)
        return over(t.args[1], cond + ((t.args[0], True),)) + over(t.args[2], cond + ((t.args[0], False),))
    return [(cond, t)]


def sums(pw, P):
    """[(loop value, next values)] of the running sums a prediction is made of."""
    out = {}
    for k in walk(P):
        lp = pw.loop(k)
        if lp is not None and pw.depends(lp[1]) and not (k.op == "mu" and _frame(pw, k)):
            out[k] = lp
    return sorted(out.items(), key=lambda i: i[0].uid)


def _frame(pw, m):
    """A loop variable that is a table with named columns."""
    return any(k.op == "upd" and k.args[1].op == "const" and isinstance(k.args[1].args[0], str) for k in walk(pw.mu[m][1])) or \
        pw.mu[m][0].op == "call" and pw.mu[m][0].args[0] == "pandas.DataFrame"


def addends(t, out):
    if t.op == "bin" and t.args[0] == "Add":
        addends(t.args[1], out)
        addends(t.args[2], out)
    else:
        out.append(t)
    return out


def contributions(rep, nm, where, pw, P):
    """What each feature adds to the running sums behind a prediction."""
    used = []
    for run, (first, back) in sums(pw, P):
        if not any(k is run for x in leaves(back) for k in walk(x)):
            continue
        rep.ok(SUM, nm)
        for x in leaves(back):
            if x is run:
                continue
            parts = addends(x, [])
            rest = [k for k in parts if k is not run]
            if len(parts) == len(rest) + 1 and len(rest) == 1 and not any(k is run for k in walk(rest[0])):
                used.append(rest[0])
            elif len(parts) > len(rest) + 1 or len(rest) != 1 or x.op == "bin":
                rep.add(SUM, nm, where, "a feature changes the sum %s to %s instead of adding one contribution" % (show(run, 2), show(x, 3)[:200]))
            else:
                rep.skipped(nm, "the running sum has another form: %s" % show(x, 3))
    frames = {k.args[0] for k, _ in sums(pw, P) if k.op == "sub"}
    for m in frames:
        for cond, x in over(pw.mu[m][1]):
            if x is m and cond:
                rep.add(SUM, nm, where, "a feature contributes nothing to the prediction when %s is %s" % (show(cond[-1][0], 4)[:200], cond[-1][1]))
    return used


def keys(t, mu):
    """The keys under which values that are not constants are put in a container."""
    return {x.args[1] for x in walk(t, mu, set()) if x.op == "upd" and x.args[0].op == "mu" and mu[x.args[0]][0].op in ("dict", "list")
            and x.args[1].op not in ("const", "slice")}


def origin(t):
    """The parts of a value that tell one feature from another."""
    return {x for x in walk(t) if x.op == "attr" and x.args[1] in ("feature_type", "feature_group") or x.op == "const" and isinstance(x.args[0], str)}


def reached(t, wanted, seen):
    """The term is built from one of the wanted ones and not only from a single entry of it."""
    if t in wanted:
        return True
    if not isinstance(t, T) or t in seen or t.op == "sub" and t.args[1].op == "const":
        return False
    seen.add(t)
    return any(reached(k, wanted, seen) for k in t.kids())


def names(rep, p, nm, where, it, life, t):
    """Features that differ in type or columns are reported under different names."""
    m = Module("selftest", "selftest.py", "selftest.py", SRC, p)
    made = [k for k in keys(t, it.mu) if not any(x.op in ("obj", "lost", "mu") for x in walk(k))]
    for what, fn in (("type", "types"), ("columns", "groups")):
        v, s = it.call_entry(m.functions[fn], life.st, None, args=[life.obj])
        o = origin(it.term(v, s)) if s is not None else set()
        if what == "type":
            o = {x for x in o if x.op == "attr" and x.args[1] == "feature_type" or x.op == "const" and x.args[0]}
        else:
            o = {x for x in o if x.op == "attr" and x.args[1] == "feature_group"}
        for k in made:
            if not o:
                continue
            rep.ok(NAMES, "%s %s" % (nm, what))
            if not reached(k, o, set()):
                rep.add(NAMES, "%s %s" % (nm, what), where, "features that differ in their %s are reported under one name: %s" % (what, show(k, 3)[:200]))


def check(rep, p, cls):
    nm = world.short(cls)
    life = world.Life(p, cls)
    life.construct()
    it = life.it
    v, s, _ = life.run("fit")
    if s is None or not life.has("get_feature_contributions"):
        rep.skipped(nm, "training always raises")
        return
    v, s, _ = life.run("predict", keep=False, prefix="new ")
    c, cs, _ = life.run("get_feature_contributions", keep=False, prefix="new ")
    if s is None or cs is None:
        rep.skipped(nm, "prediction always raises")
        return
    fi = it.method(cls, "predict")
    where = "%s:%d" % (fi.module.relpath, fi.node.lineno)
    gi = it.method(cls, "get_feature_contributions")
    gwhere = "%s:%d" % (gi.module.relpath, gi.node.lineno)
    pw = Pointwise(it.mu, [NEW])
    P = it.term(v, s)
    used = contributions(rep, nm, where, pw, P)
    if not used:
        rep.skipped(nm, "no running sum of contributions found in the prediction")
        return
    ul = it.method(cls, "unlink_func")
    want = []
    for k in used:
        cell = it.new_arr(life.st, k)
        it.epoch += 1
        u, us = it.call_entry(ul, life.st, life.obj, args=[cell])
        if us is None:
            rep.skipped(nm, "the link function always raises")
            return
        want.append(it.term(u, us))
    names(rep, p, nm, gwhere, it, life, it.term(c, cs))
    shown = held(it.term(c, cs), it.mu, pw, set(), [], want)
    rep.ok(SHOWN, nm)
    skip = left_out(it.term(c, cs), it.mu)
    if skip is not None:
        rep.add(SHOWN, nm, gwhere, "a feature is used but not reported when %s is %s" % (show(skip[0], 4)[:200], skip[1]))
    if not shown:
        rep.skipped(nm, "no contributions found in what is returned")
    for t in shown:
        rep.ok(SHOWN, nm)
        if not any(same(t, w, it.mu) for w in want):
            rep.add(SHOWN, nm, gwhere, "reported is %s, used is %s" % (show(t, 4)[:250], show(want[0], 4)[:250]))
    for w in want:
        rep.ok(SHOWN, nm)
        if shown and not any(same(t, w, it.mu) for t in shown):
            rep.add(SHOWN, nm, gwhere, "the contribution %s is used but not reported" % show(w, 4)[:250])
    rep.functions |= it.inlined


def run(p, rep, tier):
    rep.rule(SUM, "every change of the running sum behind a prediction adds one contribution of the feature, once and unscaled")
    rep.rule(SHOWN, "the value reported for a feature is the inverse link of the very contribution that is added in the prediction")
    rep.rule(NAMES, "the name under which a contribution is reported depends on the columns and on the type of the feature")
    parallel(rep, p, world.estimators(p), check, world.short)
    rep.floor(SUM, 12)
    rep.floor(SHOWN, 12)
