"""C22: a saved and restored model is the same model."""
import ast

from .. import world
from ..build import mk_phi
from ..framework import call_path, parallel
from ..program import ClassInfo, Module
from ..state import Arr, Cl, ExtMeth, Fn, K, Obj, ObjDict, Partial, PhiV, Seq, UNBOUND, State
from ..syntax import views
from ..terms import FALSE, NONE, T, TRUE, show, walk

TRIP = "state-lost-on-restoring"
PURE = "saving-changes-the-object"
HOLD = "attribute-cannot-be-saved"
IDENT = "identity-does-not-survive"
SPARSE = {"csr_matrix", "csc_matrix", "coo_matrix", "lil_matrix", "bsr_matrix", "dok_matrix"}
HOOKS = ("__getstate__", "__setstate__", "__reduce__", "__reduce_ex__", "__copy__", "__deepcopy__", "__getnewargs__",
         "__getnewargs_ex__")


# ------------------------------------------------------------ normal form
class Norm(object):
    """Terms with the laws of the conversions used for saving applied."""

    def __init__(self):
        self.memo = {}

    def norm(self, t, facts=()):
        key = (t, facts)
        if key in self.memo:
            return self.memo[key]
        r = self.memo[key] = self._norm(t, facts)
        return r

    def _norm(self, t, facts):
        for c, v in facts:
            if c is t:
                return TRUE if v else FALSE
        if not isinstance(t, T) or not t.kids():
            return t
        if t.op == "phi":
            c = self.norm(t.args[0], facts)
            if c is TRUE:
                return self.norm(t.args[1], facts)
            if c is FALSE:
                return self.norm(t.args[2], facts)
            if len(facts) > 6:
                return t
            a, b = self.norm(t.args[1], facts + ((c, True),)), self.norm(t.args[2], facts + ((c, False),))
            return a if a is b else mk_phi(c, a, b)
        t = T(t.op, *[self.norm(a, facts) if isinstance(a, T) else a for a in t.args])
        if t.op == "not" and t.args[0] in (TRUE, FALSE):
            return FALSE if t.args[0] is TRUE else TRUE
        if t.op == "cmp" and t.args[0] == "is" and t.args[2] is NONE:
            x = t.args[1]
            if x.op == "call":
                return FALSE
        if t.op == "call" and t.args[0] == "cast" and "float64" in str(t.args[2:]):
            return t.args[1]
        return self.law(t)

    def sparse_of(self, t):
        """v if t is a sparse matrix holding the vector v as its only row."""
        if t.op == "call" and str(t.args[0]).split(".")[-1] in SPARSE and "sparse" in str(t.args[0]):
            v = t.args[1]
            if any("float64" not in show(k, 3) and "dtype" in show(k, 3) for k in t.args[2:] if isinstance(k, T)):
                return None
            while v.op == "call" and str(v.args[0]) in ("numpy.atleast_2d", "meth.reshape") or \
                    v.op == "sub" and self.newrow(v.args[1]):
                if v.op == "call" and v.args[0] == "meth.reshape" and [x for x in v.args[2:] if x.op != "const"]:
                    return None
                v = v.args[1] if v.op == "call" else v.args[0]
            return v
        if t.op == "call" and str(t.args[0]) in ("meth.tocsr", "meth.copy", "meth.tocsc", "meth.tocoo"):
            return self.sparse_of(t.args[1])
        return None

    def newrow(self, i):
        return i.op == "tuple" and len(i.args) == 2 and i.args[0] is NONE and i.args[1].op == "slice"

    def dense_of(self, t):
        """v if t is the matrix of one row v."""
        if t.op == "call" and str(t.args[0]) in ("meth.toarray", "meth.todense"):
            return self.sparse_of(t.args[1])
        if t.op == "call" and str(t.args[0]) in ("numpy.asarray", "numpy.array"):
            return self.dense_of(t.args[1])
        if t.op == "attr" and t.args[1] == "A":
            return self.sparse_of(t.args[0])
        return None

    def law(self, t):
        if t.op == "sub":
            v = self.dense_of(t.args[0])
            i = t.args[1]
            if v is not None:
                if i.op == "const" and i.args[0] in (0, -1):
                    return v
                if i.op == "tuple" and len(i.args) == 2 and i.args[0].op == "const" and i.args[0].args[0] in (0, -1) and \
                        i.args[1].op == "slice" and all(x.op == "const" and x.args[0] is None for x in i.args[1].args):
                    return v
        if t.op == "call" and len(t.args) > 1 and isinstance(t.args[1], T):
            n = str(t.args[0])
            if n in ("numpy.ravel", "meth.ravel", "meth.flatten"):
                v = self.dense_of(t.args[1])
                if v is not None:
                    return v
            if n in ("meth.reshape", "numpy.reshape"):
                v = self.dense_of(t.args[1])
                if v is not None and len(t.args) == 3 and t.args[2].op == "const" and t.args[2].args[0] == -1:
                    return v
            if n in ("numpy.array", "numpy.asarray", "meth.copy", "numpy.copy", "copy.copy", "copy.deepcopy", "numpy.ascontiguousarray"):
                x = t.args[1]
                if x.op == "call" and str(x.args[0]) == "meth.tolist":
                    x = x.args[1]
                if len([k for k in t.args[2:] if isinstance(k, T)]) == 0:
                    return x
        return t


def foreign(a, b):
    """A conversion in the restored value that has no model here."""
    old = {t for t in walk(b)}
    for t in walk(a):
        if t in old or t.op not in ("call", "apply"):
            continue
        n = str(t.args[0])
        if n.split(".")[0] in ("numpy", "meth", "scipy", "copy", "pandas", "cast", "builtins"):
            continue
        return t
    return None


# --------------------------------------------------------------- round trip
def hooks(cls):
    """The pickling hooks that the package defines for a class."""
    return {n: cls.lookup(n)[2] for n in HOOKS if cls.lookup(n)}


def restored(it, cls, obj, st, defined, rep, name):
    """(object, state) after saving and restoring, or None."""
    n0 = len(it.events)
    other = it.new_obj(cls, "restored")
    if "__reduce__" in defined or "__reduce_ex__" in defined or "__getnewargs__" in defined or "__getnewargs_ex__" in defined:
        rep.skipped(name, "own reconstruction (__reduce__) is not modelled")
        return None
    if "__getstate__" in defined:
        v, s = it.call_entry(defined["__getstate__"], st, obj)
        if s is None:
            rep.add(TRIP, "%s.__getstate__" % name, defined["__getstate__"].loc(), "saving always raises")
            return None
    else:
        s = State(st)
        v = it.new_seq(s, "dict", [(K(k), x) for k, x in sorted(it.fields(obj.oid, st).items())])
    check_pure(rep, it, obj, st, it.events[n0:], name)
    if "__setstate__" in defined:
        r, s2 = it.call_entry(defined["__setstate__"], s, other, args=[v])
        if s2 is None:
            rep.add(TRIP, "%s.__setstate__" % name, defined["__setstate__"].loc(), "restoring always raises")
            return None
        return other, s2
    s2 = State(s)
    c = it.content(v.cid, s) if isinstance(v, Seq) else None
    if not (isinstance(c, tuple) and c[0] == "lit"):
        rep.skipped(name, "the saved state is not a table of attributes")
        return None
    for k, x in c[1]:
        if isinstance(k, K):
            s2.put(("f", other.oid, k.v), x)
    return other, s2


def check_pure(rep, it, obj, st, evs, name):
    _, cids = it.reach(obj, st)
    for ev in evs:
        if ev.kind in ("setattr", "delattr") and isinstance(ev.data["obj"], Obj) and ev.data["obj"].oid == obj.oid:
            rep.add(PURE, "%s %s" % (name, ev.data["name"]), ev.where(), "saving the object changes its attribute %s"
                    % ev.data["name"], call_path(ev))
        elif ev.kind == "mutate" and not ev.data["how"].startswith("new") and set(ev.data.get("cells", ())) & cids:
            rep.add(PURE, "%s %s" % (name, ev.data["how"]), ev.where(), "saving the object writes into its values",
                    call_path(ev))
        elif ev.kind == "mutate" and ev.data["roots"] and hits(ev, cids):
            rep.add(PURE, "%s %s" % (name, ev.data["how"]), ev.where(), "saving the object writes into its values", call_path(ev))
    rep.ok(PURE, name)


def hits(ev, cids):
    t = ev.data.get("target")
    return isinstance(t, (Arr, Seq)) and t.cid in cids


def compare(rep, p, life, what, defined):
    it, cls, obj, st = life.it, life.cls, life.obj, life.st
    name = world.short(cls)
    hit = restored(it, cls, obj, st, defined, rep, name)
    if hit is None:
        return
    other, s2 = hit
    nm = Norm()
    mine, its = it.fields(obj.oid, st), it.fields(other.oid, s2)
    bad = []
    for f, v in sorted(mine.items()):
        if v is UNBOUND:
            continue
        a = its.get(f)
        if a is None:
            bad.append((f, None))
            continue
        if isinstance(v, (Obj, Seq)) and it.same(v, a):
            rep.ok(TRIP, "%s.%s" % (name, f))
            continue
        x, y = nm.norm(it.term(a, s2)), nm.norm(it.term(v, st))
        if x is y:
            rep.ok(TRIP, "%s.%s" % (name, f))
        elif foreign(x, y) is not None:
            rep.skipped("%s.%s" % (name, f), "no model of %s" % show(foreign(x, y), 1))
        else:
            bad.append((f, x))
    for f, x in bad:
        if x is None and not used(p, cls, f):
            rep.ok(TRIP, "%s.%s" % (name, f))
            continue
        fi = defined.get("__getstate__") or defined.get("__setstate__")
        rep.add(TRIP, "%s.%s" % (name, f), fi.loc(), "%s object: attribute %s is %s after saving and restoring" % (
            what, f, "missing" if x is None else show(x, 4)))


def used(p, cls, f):
    """The attribute is read by a method that does not write it itself before."""
    for c in cls.mro:
        for fi in getattr(c, "methods", {}).values():
            if fi.name in HOOKS:
                continue
            for n in ast.walk(fi.node):
                if isinstance(n, ast.Attribute) and n.attr == f and isinstance(n.ctx, ast.Load):
                    return True
    return False


def check_life(rep, p, cls):
    name = world.short(cls)
    defined = hooks(cls)
    life = world.Life(p, cls)
    life.construct()
    if defined:
        compare(rep, p, life, "unfitted", defined)
    for m in ("fit",):
        if life.has(m):
            life.run(m)
    if defined:
        compare(rep, p, life, "fitted", defined)
    else:
        for f in life.it.fields(life.obj.oid, life.st):
            rep.ok(TRIP, "%s.%s" % (name, f))
    check_held(rep, life, name)
    rep.functions |= life.it.inlined


# ------------------------------------------------------------- held values
def check_held(rep, life, name):
    it, st = life.it, life.st
    seen = set()
    todo = [(f, v) for f, v in it.fields(life.obj.oid, st).items()]
    while todo:
        f, x = todo.pop()
        if x is None or id(x) in seen or isinstance(x, (K, Cl)):
            continue
        seen.add(id(x))
        rep.ok(HOLD)
        why = unsaveable(it, x, st)
        if why:
            rep.add(HOLD, "%s.%s" % (name, f), life.cls.qualname if not isinstance(x, Fn) else x.info.loc(),
                    "attribute %s holds %s, which cannot be saved" % (f, why))
        if isinstance(x, Obj):
            if x.oid in seen:
                continue
            seen.add(x.oid)
            todo += [("%s.%s" % (f.split(".")[-1], k), v) for k, v in it.fields(x.oid, st).items()]
        elif isinstance(x, PhiV):
            todo += [(f, x.a), (f, x.b)]
        elif isinstance(x, Partial):
            todo += [(f, x.fn)] + [(f, a) for a in list(x.args) + list(x.kwargs.values())]
        elif isinstance(x, ExtMeth):
            todo.append((f, x.recv))
        elif isinstance(x, Fn):
            todo.append((f, x.selfv))
        elif isinstance(x, Seq):
            c = it.content(x.cid, st)
            if isinstance(c, tuple) and c[0] == "lit":
                for i in c[1]:
                    todo += [(f, k) for k in (i if isinstance(i, tuple) else (i,))]


def unsaveable(it, x, st):
    if isinstance(x, Fn):
        if x.info.name == "<lambda>":
            return "a lambda"
        if x.info.parent is not None:
            return "the local function %s" % x.info.name
    if isinstance(x, Arr):
        todo, seen = [it.term(x, st)], set()
        while todo:
            t = todo.pop()
            if t in seen:
                continue
            seen.add(t)
            if t.op in ("phi", "upd", "tuple", "list", "dict"):
                todo += [k for k in (t.args[1:] if t.op == "phi" else t.args) if isinstance(k, T)]
            if t.op == "comp" and t.args[0] == "gen":
                return "a generator"
            if t.op != "call":
                continue
            if str(t.args[0]) in ("builtins.open", "io.open", "threading.Lock", "threading.RLock", "builtins.iter",
                                  "threading.local", "weakref.ref", "weakref.proxy", "weakref.WeakKeyDictionary"):
                return "the result of %s" % t.args[0]
            if str(t.args[0]) in ("collections.defaultdict", "functools.partial"):
                for k in t.args[1:]:
                    if isinstance(k, T) and k.op == "func" and "<l" in str(k.args[0]):
                        return "the local function %s" % str(k.args[0]).split(".")[-1]
    return None


# ---------------------------------------------------------------- identity
def check_identity(rep, p, v):
    """`is` against an instance made at import, which a restored object does not hold any more."""
    for n in v.nodes:
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "id" and "id" not in v.binds and held(v, n):
            rep.add(IDENT, "%s id()" % v.qualname.replace("cyclic_boosting.", ""), v.loc(n),
                    "the address of an object changes when it is saved and restored")
        if isinstance(n, ast.Compare) and any(isinstance(o, (ast.Is, ast.IsNot)) for o in n.ops):
            rep.ok(IDENT)
            ops = [n.left] + n.comparators
            for x in ops:
                s = sentinel(v, x)
                if s and any(isinstance(o, ast.Attribute) for o in ops):
                    rep.add(IDENT, "%s is %s" % (v.qualname.replace("cyclic_boosting.", ""), s), v.loc(n),
                            "%s is one object of this process; a restored model holds a copy of it" % s)


def held(v, n):
    """The statement keeps or looks up something in an attribute."""
    while n is not None and not isinstance(n, ast.stmt):
        n = v.parents.get(n)
    return n is not None and not isinstance(n, (ast.FunctionDef, ast.ClassDef)) and any(
        isinstance(k, ast.Attribute) and isinstance(k.value, ast.Name) and k.value.id == "self" for k in ast.walk(n))


def sentinel(v, x):
    """Name of a module-level constant that is a fresh instance."""
    if not isinstance(x, ast.Name) or x.id in v.binds:
        return None
    for s in v.module.tree.body:
        if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == x.id for t in s.targets):
            if isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id == "object" \
                    or isinstance(s.value, (ast.List, ast.Dict, ast.Set)):
                return x.id
    return None


SELFTEST = """
import numpy as np
from scipy import sparse
class Good(object):
    def fit(self, X, y):
        self.a_ = y
        self.b_ = X
        return self
    def predict(self, X):
        return self.a_[X] + self.b_
    def __getstate__(self):
        s = dict(self.__dict__)
        if "a_" in s:
            s["a_"] = sparse.csc_matrix(s["a_"])
        return s
    def __setstate__(self, s):
        s = dict(s)
        if "a_" in s:
            s["a_"] = s["a_"].toarray().ravel()
        self.__dict__.update(s)
class Loses(Good):
    def __getstate__(self):
        s = dict(self.__dict__)
        s.pop("b_", None)
        return s
class Wrong(Good):
    def __setstate__(self, s):
        if "a_" in s:
            s["a_"] = s["a_"].toarray()[:, 0]
        self.__dict__.update(s)
class Writes(Good):
    def __getstate__(self):
        s = self.__dict__
        s["b_"] = None
        return s
class Local(Good):
    def fit(self, X, y):
        self.a_ = y
        self.b_ = lambda x: x
        return self
"""


def selftest(p):
    from ..framework import Report
    m = Module("selftest", "selftest.py", "selftest.py", SELFTEST, p)
    for n in list(m.classes):
        m.classes[n] = ClassInfo(m.classes[n], m, p)
    for n, c in m.classes.items():
        r = Report("selftest")
        for f in (TRIP, PURE, HOLD, IDENT):
            r.rule(f, "")
        check_life(r, p, c)
        if bool(r.findings) != (n != "Good"):
            raise AssertionError("self test %s failed: %s" % (n, list(r.findings)))


def run(p, rep, tier):
    rep.rule(TRIP, "for every attribute, restoring after saving gives the value back (composition of the two hooks, reduced with "
                   "the laws of the conversions)")
    rep.rule(PURE, "saving writes nothing of the object that is saved")
    rep.rule(HOLD, "no attribute of a trained object holds a local function, lambda, generator, handle or lock")
    rep.rule(IDENT, "no decision rests on the address of an object or on a sentinel made at import")
    parallel(rep, p, world.estimators(p) + world.smoothers(p) + world.transformers(p) + world.chains(p), check_life, world.short)
    for v in views(p):
        rep.guard(v.qualname, check_identity, rep, p, v)
    rep.floor(TRIP, 300)
    rep.floor(HOLD, 300)
    selftest(p)
