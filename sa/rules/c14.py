"""C14: objects do not influence each other."""
import ast

from .. import world
from ..framework import call_path, parallel
from ..interp import Interp
from ..state import K, Obj, PhiV, State
from ..syntax import views, FuncView

DEFAULT = "shared-default-argument"
CLASS = "class-level-state"
MODULE = "module-level-state"
PARTS = "features-share-smoother"
OPTIONS = "option-object-changed"
GROUPS = "groups-share-estimator"
CLONE = "clone-shares-option"

MUTATORS = {"append", "extend", "insert", "remove", "pop", "clear", "update", "setdefault", "add", "discard", "sort",
            "reverse", "fill", "put", "popitem", "appendleft", "itemset", "resize", "partition", "__setitem__"}
IMMUTABLE_CALLS = {"builtins.tuple", "builtins.frozenset", "builtins.float", "builtins.int", "builtins.str",
                   "builtins.bool", "numpy.float64", "numpy.log", "numpy.sqrt", "numpy.dtype", "builtins.object"}
CACHES = ("functools.lru_cache", "functools.cache")


def mutable(v, e):
    """The expression makes a new object that can be changed."""
    if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    if isinstance(e, ast.Call):
        q = v.ext(e.func)
        return q not in IMMUTABLE_CALLS and not (q or "").endswith(("getLogger", "namedtuple", "TypeVar"))
    return False


def written(v, is_target):
    """Nodes that change, in place, an object for which ``is_target(expr)`` holds."""
    for n in v.nodes:
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS and is_target(n.func.value):
            yield n, n.func.attr
        ts = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target] if isinstance(
            n, (ast.AugAssign, ast.AnnAssign)) else []
        for t in ts:
            if isinstance(t, ast.Subscript) and is_target(t.value):
                yield n, "item assignment"
            elif isinstance(t, ast.Attribute) and is_target(t.value):
                yield n, "attribute assignment"
            elif isinstance(n, ast.AugAssign) and is_target(t):
                yield n, "augmented assignment"


def check_defaults(rep, v):
    fn = v.node
    if isinstance(fn, ast.Module):
        return
    a = fn.args
    pos = a.posonlyargs + a.args
    pairs = list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(k, d) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d]
    for arg, d in pairs:
        rep.ok(DEFAULT)
        if not mutable(v, d):
            continue
        names = {arg.arg}
        for n in v.nodes:
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id in names:
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        names.add(t.id)
        if any(b is not None for b in v.binds.get(arg.arg, [])) and len(names) == 1 and _rebound_first(v, arg.arg):
            continue
        target = lambda e: isinstance(e, ast.Name) and e.id in names  # noqa
        inst = "%s(%s)" % (v.qualname, arg.arg)
        for n, how in written(v, target):
            rep.add(DEFAULT, inst, v.loc(n), "the default object of %s, shared by all calls, is changed (%s)" % (arg.arg, how))
        for n in v.nodes:
            if isinstance(n, ast.Assign) and target(n.value) and any(isinstance(t, (ast.Attribute, ast.Subscript)) for t in n.targets):
                rep.add(DEFAULT, inst, v.loc(n), "the default object of %s, shared by all calls, is stored" % arg.arg)
            elif isinstance(n, (ast.Return, ast.Yield)) and n.value is not None and target(n.value):
                rep.add(DEFAULT, inst, v.loc(n), "the default object of %s, shared by all calls, is handed out" % arg.arg)
            elif isinstance(n, ast.Call):
                # handed to the constructor of a superclass, which stores it
                f = n.func
                if isinstance(f, ast.Attribute) and f.attr == "__init__" and any(
                        target(x) for x in n.args + [k.value for k in n.keywords]):
                    rep.add(DEFAULT, inst, v.loc(n), "the default object of %s, shared by all calls, is stored" % arg.arg)


def _rebound_first(v, name):
    """The first statement mentioning the parameter replaces it."""
    for s in v.node.body:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and n.id == name:
                return isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets) and \
                    not isinstance(s.value, ast.Name)
    return False


def instance_attrs(c):
    """Attributes that the constructor binds on the instance."""
    hit = c.lookup("__init__")
    out = set()
    for k in c.mro:
        if isinstance(k, str) or "__init__" not in k.methods:
            continue
        for n in ast.walk(k.methods["__init__"].node):
            if isinstance(n, (ast.Assign, ast.AnnAssign)):
                for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self":
                        out.add(t.attr)
        if hit and k is hit[1] and "super" not in ast.dump(k.methods["__init__"].node):
            if not any(isinstance(n, ast.Attribute) and n.attr == "__init__" for n in ast.walk(k.methods["__init__"].node)):
                break
    return out


def check_class_state(rep, p, v):
    c = v.cls
    if c is None:
        return
    shared = {}
    for k in c.mro:
        if isinstance(k, str):
            continue
        for n, e in k.attrs.items():
            shared.setdefault(n, (k, e))
    own = instance_attrs(c)
    enum = any("enum" in b.lower() for b in c.ext_bases())

    def on_shared(e):
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
            if e.value.id in ("self", "cls") and e.attr in shared and e.attr not in own and mutable(v, shared[e.attr][1]):
                return True
        return isinstance(e, ast.Attribute) and class_ref(e.value) and e.attr in shared and mutable(v, shared[e.attr][1])

    def class_ref(e):
        if isinstance(e, ast.Name):
            r = p.resolve_in(v.module, e.id)
            return (e.id == "cls" and v.node.name != "__new__") or (e.id not in v.binds and r is not None and r[0] == "class")
        if isinstance(e, ast.Attribute) and e.attr == "__class__":
            return True
        return isinstance(e, ast.Call) and v.ext(e.func) == "builtins.type" and len(e.args) == 1

    rep.ok(CLASS)
    if enum:
        return
    for n, how in written(v, on_shared):
        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Attribute) and not isinstance(n.target.value, ast.Name):
            continue
        rep.add(CLASS, "%s %s" % (v.qualname, how), v.loc(n), "an object shared by all instances of %s is changed (%s)" % (c.name, how))
    for n in v.nodes:
        ts = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target] if isinstance(n, ast.AugAssign) else []
        for t in ts:
            if isinstance(t, ast.Attribute) and class_ref(t.value):
                rep.add(CLASS, "%s %s" % (v.qualname, t.attr), v.loc(n), "attribute %s of the class is replaced" % t.attr)


def check_module_state(rep, p, v):
    if isinstance(v.node, ast.Module):
        return
    rep.ok(MODULE)
    declared = set()
    for n in v.nodes:
        if isinstance(n, ast.Global):
            declared |= set(n.names)

    glob_names = {k for k, bs in v.binds.items() if any(is_globals(v, b) for b in bs)}

    def module_object(e):
        if isinstance(e, ast.Name):
            if e.id in glob_names:
                return True
            if e.id in v.binds and e.id not in declared:
                return False
            r = p.resolve_in(v.module, e.id)
            if r is None:
                return False
            if r[0] == "assign":
                return True
            return r[0] == "func"
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name) and e.value.id not in v.binds:
                r = p.resolve_in(v.module, e.value.id)
                if r is not None and r[0] == "module":
                    r2 = p.resolve_in(r[1], e.attr)
                    return r2 is not None and r2[0] == "assign"
            return False
        if isinstance(e, ast.Call):
            return is_globals(v, e)
        return False

    def module_ref(e):
        if isinstance(e, ast.Name) and e.id not in v.binds:
            r = p.resolve_in(v.module, e.id)
            return r is not None and r[0] == "module"
        return False

    for n, how in written(v, lambda e: module_object(e) or module_ref(e)):
        if isinstance(n, ast.Call) and how in ("update", "setdefault") and not n.args and not n.keywords:
            continue
        rep.add(MODULE, "%s %s" % (v.qualname, how), v.loc(n), "an object of the module, shared by everything in the process, "
                                                             "is changed (%s)" % how)
    for n in v.nodes:
        ts = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target] if isinstance(n, (ast.AugAssign, ast.For)) else []
        for t in ts:
            for x in ast.walk(t):
                if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)) and x.id in declared:
                    rep.add(MODULE, "%s %s" % (v.qualname, x.id), v.loc(n), "module variable %s is replaced" % x.id)
    for d in getattr(v.node, "decorator_list", ()):
        q = v.ext(d.func if isinstance(d, ast.Call) else d)
        if q in CACHES and not _scalar_result(v):
            rep.add(MODULE, "%s %s" % (v.qualname, q), v.loc(v.node), "results that can be changed are shared between calls (%s)" % q)


def is_globals(v, b):
    return isinstance(b, ast.Call) and v.ext(b.func) == "builtins.globals" or isinstance(b, ast.Attribute) and b.attr == "__dict__" \
        and isinstance(b.value, ast.Name) and b.value.id not in ("self",) and b.value.id not in v.binds


def _scalar_result(v):
    """All results are numbers, strings or truth values."""
    for n in v.nodes:
        if isinstance(n, ast.Return) and n.value is not None:
            e = n.value
            if isinstance(e, (ast.Constant, ast.Compare, ast.BoolOp, ast.JoinedStr)):
                continue
            if isinstance(e, ast.Call) and v.ext(e.func) in ("builtins.float", "builtins.int", "builtins.str", "builtins.bool",
                                                             "math.lgamma", "builtins.tuple"):
                continue
            return False
    return True


# ------------------------------------------------------------------ smoothers of the features
def objs(v):
    if isinstance(v, PhiV):
        return objs(v.a) + objs(v.b)
    return [v] if isinstance(v, Obj) else []


def check_parts(rep, p):
    fl = p.func("features.create_features") if "create_features" in p.modules["cyclic_boosting.features"].functions else None
    choices = [c for c in p.classes.values() if c.lookup("choice_fct") and not c.has_abstract()]
    for ch in sorted(choices, key=lambda c: c.qualname):
        it = Interp(p)
        st = State(it.root)
        try:
            o = it.construct(ch, st)
        except Exception:  # the choice cannot be built from unknown arguments
            continue
        rep.ok(PARTS, ch.name)
        kw = {n: o for n in fl.all_params if "choice" in n}
        v, s = it.call_entry(fl, st, None, kwargs=kw)
        if s is None:
            continue
        rep.functions |= it.inlined
        news = {}
        for ev in it.events:
            if ev.kind == "new":
                news[ev.data["obj"].oid] = ev
        made = [ev for ev in it.events if ev.kind == "new" and ev.data["cls"].name == "Feature"]
        for ev in made:
            frame = [x[1] for x in ev.stack]
            for name, val in it.fields(ev.data["obj"].oid, s).items():
                for x in objs(val):
                    n = news.get(x.oid)
                    if n is None or not n.data["cls"].is_subclass(p.cls(world.SMOOTHER_BASE)):
                        continue
                    rep.ok(PARTS, "%s %s" % (ch.name, n.data["cls"].name))
                    if [y[1] for y in n.stack][:len(frame)] != frame:
                        rep.add(PARTS, "%s %s.%s" % (ch.name, "Feature", name), ev.where(),
                                "features of one model share a smoother object (%s made at %s)" % (n.data["cls"].name, n.where()))


def groups_of(rep, p, nm, evs):
    """What is fitted for each group of rows is not one object given to the constructor."""
    for ev in evs:
        if ev.kind != "mcall" or ev.data["name"] not in ("fit", "fit_transform", "partial_fit"):
            continue
        rep.ok(GROUPS)
        bad = sorted(r for r in ev.data["roots"] if r.startswith("param:"))
        if bad and repeated(ev, evs):
            rep.add(GROUPS, "%s %s" % (nm, "/".join(bad)), ev.where(), "one object (%s) is fitted again for every group" % ", ".join(bad), call_path(ev))


def repeated(ev, evs):
    """The call is made by a function that a library applies to each group, or in a comprehension."""
    fi = ev.fi
    if fi is None:
        return False
    for n in ast.walk(fi.node):
        if isinstance(n, (ast.ListComp, ast.DictComp, ast.GeneratorExp)) and any(x is ev.node for x in ast.walk(n)):
            return True
    return any(x.kind in ("mcall", "call") and any(t.op == "func" and t.args[0] == fi.qualname for t in x.data.get("terms", ()) if hasattr(t, "op"))
               for x in evs)


def cloned(rep, p, cls):
    """A clone is built from copies of the options."""
    life = world.Life(p, cls, {"inplace": K(False)})
    life.construct()
    it = life.it
    v, s = it.call_entry(p.func("utils.clone"), life.st, None, args=[life.obj])
    nm = world.short(cls)
    if s is None or not isinstance(v, Obj) or v.oid == life.obj.oid:
        rep.skipped(nm, "clone not followed")
        return
    may = set()
    for k in cls.mro:
        if not isinstance(k, str) and "no_deepcopy" in k.attrs:
            may |= {n.value for n in ast.walk(k.attrs["no_deepcopy"]) if isinstance(n, ast.Constant)}
    fi = p.func("utils.clone")
    for n, x in sorted(it.fields(v.oid, s).items()):
        rep.ok(CLONE)
        bad = sorted(r for r in it.roots(x, s) if r.startswith("param:") and r[6:] not in may)
        if bad:
            rep.add(CLONE, "utils.clone", "%s:%d" % (fi.module.relpath, fi.node.lineno), "a clone of %s shares %s with the original (%s)" % (
                nm, n, ", ".join(bad)))


def options_of(rep, p, cls):
    life = world.Life(p, cls, {"inplace": K(False)})
    life.construct()
    for m in world.LEARN:
        if not life.has(m):
            continue
        v, s, evs = life.run(m, keep=False)
        groups_of(rep, p, world.short(cls), evs)
        for ev in evs:
            if ev.kind == "mutate":
                rep.ok(OPTIONS)
                bad = sorted(r for r in ev.data["roots"] if r.startswith("param:"))
                if bad:
                    rep.add(OPTIONS, "%s.%s %s" % (world.short(cls), m, "/".join(bad)), ev.where(),
                            "an object given to the constructor is changed (%s)" % ", ".join(bad), call_path(ev))
    rep.functions |= life.it.inlined


SELFTEST = """
CACHE = {}
LIST = []
import functools
def a(x, acc=[]):
    acc.append(x)
    return len(acc)
def b(x):
    CACHE[x] = 1
def c(x):
    global LIST
    LIST = [x]
@functools.lru_cache()
def d(x):
    return [x]
def ok(x, acc=(), ex=[]):
    cache = {}
    cache[x] = 1
    for i in ex:
        x += i
    return cache, CACHE.get(x)
"""


def selftest(p):
    from ..framework import Report
    from ..program import Module
    m = Module("selftest", "selftest.py", "selftest.py", SELFTEST, p)
    for n, fi in m.functions.items():
        r = Report("selftest")
        v = FuncView(p, m, fi.node, n)
        for f in (DEFAULT, MODULE):
            r.rule(f, "")
        check_defaults(r, v)
        check_module_state(r, p, v)
        if bool(r.findings) != (n != "ok"):
            raise AssertionError("self test %s failed: %s" % (n, list(r.findings)))


def run(p, rep, tier):
    rep.rule(DEFAULT, "no default argument object is changed, stored or handed out")
    rep.rule(CLASS, "no method changes an object held by the class or replaces an attribute of the class")
    rep.rule(MODULE, "no function changes or replaces an object of a module")
    rep.rule(PARTS, "each feature of a model gets a smoother object of its own")
    rep.rule(OPTIONS, "training does not change objects that were given to the constructor")
    rep.rule(GROUPS, "no object given to the constructor is fitted once for every group of rows")
    rep.rule(CLONE, "a clone shares no option with the original except those declared as not to be copied")
    vs = views(p)
    rep.count("functions", len(vs))
    for v in vs:
        rep.guard(v.qualname, check_defaults, rep, v)
        rep.guard(v.qualname, check_class_state, rep, p, v)
        rep.guard(v.qualname, check_module_state, rep, p, v)
    rep.guard("smoothers of features", check_parts, rep, p)
    parallel(rep, p, world.estimators(p) + world.smoothers(p) + world.transformers(p), options_of, world.short)
    parallel(rep, p, [c for c in world.estimators(p) + world.smoothers(p) if not c.has_abstract()], cloned, world.short)
    rep.floor(DEFAULT, 200)
    rep.floor(CLASS, 150)
    rep.floor(MODULE, 300)
    selftest(p)
