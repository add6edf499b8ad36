"""C05: a row's result does not depend on the rows it is processed with."""
from .. import world
from ..framework import call_path, parallel
from ..interp import Interp
from ..program import Module
from ..rows import Rows
from ..state import Obj, PhiV, Seq, State
from ..terms import T, show

MIX = "row-result-depends-on-batch"
TABLES = ("X", "x", "X_for_smoother", "X_orig", "values")
SELFTEST = '''
import numpy as np
def good(X):
    m = np.isfinite(X[:, 0])
    r = np.zeros(len(X))
    if m.any():
        r[m] = np.sqrt(X[m, 0])
    return r + np.sum(X, axis=1)
def mean(X):
    return X[:, 0] - np.mean(X[:, 0])
def first(X):
    return X[:, 0] / X[0, 0]
def guard(X):
    if np.isnan(X[:, 0]).any():
        return np.ones(len(X))
    return X[:, 0]
'''


def run(p, rep, tier):
    rep.rule(MIX, "in the value graph of every prediction or transformation of a trained object, the result is row by "
                  "row: no term takes values, an order, or a decision from several rows of the input table")
    items = []
    for cls in world.estimators(p) + world.smoothers(p) + world.transformers(p) + world.chains(p):
        for m in world.APPLY:
            hit = cls.lookup(m)
            if hit and hit[2].kind == "function":
                items.append((cls.qualname, m))
    parallel(rep, p, items, one, lambda i: "%s.%s" % (i[0].split(".")[-1], i[1]))
    rep.floor(MIX, 60)
    selftest(p)


def one(rep, p, item):
    cls = p.cls(item[0])
    life = world.Life(p, cls)
    life.construct()
    if life.has("fit"):
        life.run("fit", prefix="fit_")
    fi = life.it.method(cls, item[1])
    name = "%s.%s" % (world.short(cls), item[1])
    source = {T("sym", "use_" + n) for n in fi.all_params[1:] if n in TABLES}
    if not source:
        return
    v, st, evs = life.run(item[1], prefix="use_")
    if st is None:
        rep.skipped(name, "always refuses")
        return
    judge(rep, name, life.it, fi, v, st, evs, source)
    rep.functions |= life.it.inlined


def judge(rep, name, it, fi, v, st, evs, source):
    rows = Rows(source, it.mu)
    for label, t in results(it, v, st, 0):
        k, w = rows.kind(t)
        if k == "B":
            where, path = locate(fi, evs, w)
            rep.add(MIX, name + label, where, "a row's result depends on other rows of the table through %s" % show(w, 3)[:160], path)
        elif k == "?":
            rep.skipped(name + label, "no row model for %s" % show(w, 2)[:100])
        else:
            rep.ok(MIX, name + label)


def results(it, v, st, depth):
    """(label, term) of a returned value, or of the fields of a returned object."""
    if isinstance(v, PhiV):
        for x in results(it, v.a, st, depth):
            yield x
        for x in results(it, v.b, st, depth):
            yield x
    elif isinstance(v, Obj) and depth < 2:
        for n, f in sorted(it.fields(v.oid, st).items()):
            for label, t in results(it, f, st, depth + 1):
                yield "." + n + label, t
    elif isinstance(v, Seq) and v.kind == "tuple" and it.seq_items(v, st) is not None:
        for i, x in enumerate(it.seq_items(v, st)):
            for label, t in results(it, x, st, depth):
                yield "[%d]%s" % (i, label), t
    else:
        yield "", it.term(v, st)


def locate(fi, evs, w):
    for e in evs:
        d = e.data
        if w.op == "call" and e.kind in ("call", "mcall"):
            q = d.get("q") or d.get("name")
            if q and q.split(".")[-1] == w.args[0].split(".")[-1]:
                got = list(d.get("terms") or ())
                if d.get("rterm") is not None:
                    got = [d["rterm"]] + got
                if got and len(w.args) > 1 and got[0] is w.args[1]:
                    return e.loc(), call_path(e)
    for e in evs:
        d = e.data
        if e.kind == "branch" and d.get("cond") is w:
            return e.loc(), call_path(e)
        if e.kind == "subscript" and w.op == "sub" and d.get("recv") is w.args[0] and d.get("idx") is w.args[1]:
            return e.loc(), call_path(e)
    return fi.loc(), ()


def selftest(p):
    m = Module("selftest", "selftest.py", "selftest.py", SELFTEST, p)
    for n, fi in m.functions.items():
        it = Interp(p)
        v, st = it.call_entry(fi, State(it.root), None)
        got = Rows({T("sym", "X")}, it.mu).kind(it.term(v, st))[0]
        if got != ("R" if n == "good" else "B"):
            raise AssertionError("self test %s failed: %s" % (n, got))
