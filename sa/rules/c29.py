"""C29: a trained object does not hold on to the training data."""
from .. import world
from ..framework import parallel
from ..rows import Rows
from ..state import Arr, K, Obj, PhiV, Seq, UNBOUND
from ..terms import T, walk

RULE = "training-memory-retained"
ROWS = "row-values-retained"


def holders(it, obj, st, labels):
    """Attribute paths below obj whose memory may be memory of the labelled arguments."""
    out = []
    seen = set()
    todo = [(obj, "")]
    while todo:
        v, path = todo.pop()
        if isinstance(v, Obj):
            if v.oid in seen:
                continue
            seen.add(v.oid)
            for n, x in it.fields(v.oid, st).items():
                todo.append((x, path + "." + n))
        elif isinstance(v, PhiV):
            todo.append((v.a, path))
            todo.append((v.b, path))
        elif isinstance(v, (Arr, Seq)):
            for c in it.closure_cells(v):
                if it.cells[c].label in labels:
                    out.append((path, it.cells[c].label))
            if v.cid in seen:
                continue
            seen.add(v.cid)
            c = it.content(v.cid, st)
            if isinstance(c, tuple):
                for x in (c[1] if c[0] == "lit" else (c[1], c[3])):
                    for y in (x if isinstance(x, tuple) else (x,)):
                        if y is not None:
                            todo.append((y, path + "[]"))
    return out


class Lengths(Rows):
    """Row kinds in which statistics of all rows count as constants: what remains has a value for each row.

    A field that a loop sets for every object it visits has the value set there."""

    def __init__(self, source, mu):
        Rows.__init__(self, source, mu)
        self.mu = {x: (back, back) if x.args[1][0] == "f" and not any(k is x for k in walk(back)) else (init, back)
                   for x, (init, back) in mu.items()}

    def _kind(self, t):
        r = Rows._kind(self, t)
        if t.op == "apply":
            return ("C", None)  # a function given by the user: may be a statistic
        if r[0] != "B":
            return r
        return ("R" if t.op in ("bin", "cmp") else "C", None)


def values(it, obj, st):
    """(attribute path, value) of everything below obj."""
    seen, todo = set(), [(obj, "")]
    while todo:
        v, path = todo.pop()
        if isinstance(v, Obj):
            if v.oid not in seen:
                seen.add(v.oid)
                todo += [(x, path + "." + n) for n, x in it.fields(v.oid, st).items()]
        elif isinstance(v, PhiV):
            todo += [(v.a, path), (v.b, path)]
        elif isinstance(v, (Arr, Seq)):
            yield path, v
            if v.cid in seen:
                continue
            seen.add(v.cid)
            c = it.content(v.cid, st)
            if isinstance(c, tuple):
                for x in (c[1] if c[0] == "lit" else (c[1], c[3])):
                    todo += [(y, path + "[]") for y in (x if isinstance(x, tuple) else (x,)) if y is not None]


def per_row(rep, name, m, it, fi, obj, st, evs):
    """Values computed for each row of the training data, copied or not."""
    rows = Lengths({T("sym", n) for n in fi.all_params[1:]}, it.mu)
    for path, v in values(it, obj, st):
        rep.ok(ROWS)
        k, _ = rows.kind(it.term(v, st))
        if k in "RSE":
            top = path.lstrip(".")
            ev = [e for e in evs if e.kind == "setattr" and e.data["name"] == top.split(".")[-1].rstrip("[]")]
            rep.add(ROWS, "%s %s" % (name, top), ev[-1].where() if ev else fi.loc(),
                    "after %s the object holds a value for each row of the training data in '%s'" % (m, top))


def check(rep, p, cls):
    for m in world.LEARN:
        life = world.Life(p, cls)
        if not life.has(m):
            continue
        life.construct()
        fi = life.it.method(cls, m)
        labels = set(fi.all_params[1:])
        v, s, evs = life.run(m)
        name = "%s.%s" % (world.short(cls), m)
        rep.functions |= life.it.inlined
        if s is None:
            rep.skipped(name, "always raises")
            continue
        per_row(rep, name, m, life.it, fi, life.obj, s, evs)
        oids, cids = life.it.reach(life.obj, s)
        rep.ok(RULE, name, len(oids) + len(cids))
        for path, label in holders(life.it, life.obj, s, labels):
            top = path.lstrip(".")
            ev = [e for e in evs if e.kind == "setattr" and e.data["name"] == top.split(".")[-1].rstrip("[]")]
            rep.add(RULE, "%s %s" % (name, top), ev[-1].where() if ev else fi.loc(),
                    "after %s the object still refers to memory of the argument %s through '%s'" % (m, label, top))


def run(p, rep, tier):
    rep.rule(RULE, "no array or container reachable from a trained estimator, transformer or chain may share memory with an "
                   "argument of the training call")
    rep.rule(ROWS, "nothing reachable from a trained estimator, transformer or chain has one value for each row of the training data")
    classes = world.estimators(p) + world.transformers(p) + world.chains(p)
    rep.count("classes", len(classes))
    parallel(rep, p, classes, check, world.short)
