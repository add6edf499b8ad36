"""C12: constructor options are kept."""
from .. import world
from ..framework import parallel
from ..state import Arr, K, PhiV, UNBOUND
from ..terms import T, NONE, walk

STORE = "option-not-stored"
KEEP = "option-changed-by-use"
# documented: with hierarchical feature groups the learning rate is one
OVERRIDES = {"learn_rate": "hierarchical_feature_groups"}


def leaves(it, v, st, conds=()):
    """(conditions, value) alternatives of a value; conditions are (term, bool)."""
    if isinstance(v, PhiV):
        for x in leaves(it, v.a, st, conds + ((v.cond, True),)):
            yield x
        for x in leaves(it, v.b, st, conds + ((v.cond, False),)):
            yield x
        return
    if isinstance(v, Arr):
        for x in term_leaves(it.term(v, st), conds):
            yield x
        return
    yield conds, v


def term_leaves(t, conds):
    if t.op == "phi":
        for x in term_leaves(t.args[1], conds + ((t.args[0], True),)):
            yield x
        for x in term_leaves(t.args[2], conds + ((t.args[0], False),)):
            yield x
    else:
        yield conds, t


def literals(conds):
    for c, val in conds:
        while c.op == "not":
            c, val = c.args[0], not val
        if c.op == "and" and val or c.op == "or" and not val:
            for a in c.args:
                for x in literals(((a, val),)):
                    yield x
        else:
            yield c, val


def left_out(name, conds):
    """The conditions say the option was not given (None, or falsy)."""
    sym = T("sym", name)
    for c, val in literals(conds):
        if c.op == "cmp" and c.args[0] == "is" and sym in c.args[1:] and NONE in c.args[1:] and val:
            return True
        if c is sym and not val or c.op == "truth" and c.args[0] is sym and not val:
            return True
    return False


def overridden(name, conds):
    o = OVERRIDES.get(name)
    if o is None:
        return False
    sym = T("sym", o)
    return any(c.op == "cmp" and c.args[0] == "is" and sym in c.args[1:] and not val for c, val in literals(conds))


def check(rep, p, cls):
    life = world.Life(p, cls)
    hit = cls.lookup("__init__")
    if not hit or hit[0] != "method":
        return
    fi = hit[2]
    names = [n for n in fi.all_params[1:] if n not in (fi.vararg, fi.kwarg)] if hasattr(fi, "vararg") else fi.all_params[1:]
    life.construct()
    it, st = life.it, life.st
    rep.functions |= it.inlined
    fields = it.fields(life.obj.oid, st)
    stored = []
    for n in names:
        what = "%s.%s" % (world.short(cls), n)
        rep.ok(STORE, what)
        if n not in fields:
            if cls.lookup(n):
                continue
            rep.add(STORE, what, fi.loc(), "the option '%s' is not available as an attribute after construction" % n)
            continue
        stored.append(n)
        for conds, v in leaves(it, fields[n], st):
            if v is UNBOUND:
                rep.add(STORE, what, fi.loc(), "the option '%s' is not stored on every path of the constructor" % n)
            elif isinstance(v, T) and is_option(v, n) or v is life.params[n]:
                continue
            elif left_out(n, conds) or overridden(n, conds):
                continue
            else:
                rep.add(STORE, what, fi.loc(), "the attribute '%s' does not hold the value the option was given" % n)
    # use must not change the options
    base = {n: fields[n] for n in stored}
    for m in world.LEARN:
        if not life.has(m):
            continue
        life.st = st
        v, s, evs = life.run(m, keep=False)
        if s is None:
            continue
        after = it.fields(life.obj.oid, s)
        for n in stored:
            what = "%s.%s %s" % (world.short(cls), m, n)
            rep.ok(KEEP, what)
            a, b = base[n], after.get(n, UNBOUND)
            if it.same(a, b) or isinstance(a, Arr) and isinstance(b, Arr) and it.term(a, st) is it.term(b, s):
                continue
            ev = [e for e in evs if e.kind in ("setattr", "delattr") and e.data["name"] == n
                  and e.data["obj"].oid == life.obj.oid]
            rep.add(KEEP, what, ev[-1].where() if ev else life.it.method(cls, m).loc(),
                    "%s changes the option '%s'" % (m, n))


def is_option(t, n):
    return t is T("sym", n)


def run(p, rep, tier):
    rep.rule(STORE, "after construction every option is an attribute of its own name holding the value given, or a default "
                    "where the option was left out")
    rep.rule(KEEP, "training leaves every option attribute as the constructor set it")
    classes = world.estimators(p) + world.smoothers(p) + world.transformers(p) + world.chains(p)
    rep.count("classes", len(classes))
    parallel(rep, p, classes, check, world.short)
