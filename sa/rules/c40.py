"""C40: errors reach the caller."""
import ast
import builtins

from .. import world
from ..framework import call_path, parallel
from ..interp import Interp
from ..program import Module, dotted
from ..state import State
from ..syntax import FuncView, views
from .c01 import exported

BROAD = "every-error-swallowed"
HIDE = "error-discarded"
REFUSAL = "refusal-swallowed"
INPUT = "error-of-callers-data-swallowed"
WIDE = {"Exception", "BaseException", "StandardError"}


def always_raises(body):
    """No path leaves the statements normally."""
    for s in body:
        if isinstance(s, ast.Raise):
            return True
        if isinstance(s, (ast.Return, ast.Break, ast.Continue)):
            return False
        if isinstance(s, ast.If) and s.orelse and always_raises(s.body) and always_raises(s.orelse):
            return True
        if isinstance(s, ast.With) and always_raises(s.body):
            return True
        if isinstance(s, ast.Try) and (always_raises(s.finalbody) or always_raises(s.body) and all(
                always_raises(h.body) for h in s.handlers)):
            return True
        if isinstance(s, (ast.If, ast.For, ast.While, ast.Try)) and any(
                isinstance(n, (ast.Return, ast.Break, ast.Continue)) for n in ast.walk(s)):
            return False
    return False


def retries(t, h):
    """The handler does the work of the body again, so that a lasting error
    comes up once more."""
    def calls(body):
        return {ast.dump(n.func) for s in body for n in ast.walk(s) if isinstance(n, ast.Call)}
    return bool(calls(t.body)) and calls(t.body) <= calls(h.body)


def caught(h):
    """Names of the exception classes of a handler; None for a bare one."""
    if h.type is None:
        return None
    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    return [(dotted(t) or "?").split(".")[-1] for t in ts]


def ancestors(p, name, seen=()):
    c = getattr(builtins, name, None)
    if isinstance(c, type):
        return {k.__name__ for k in c.__mro__}
    out = {name}
    for q, ci in p.classes.items():
        if ci.name == name and name not in seen:
            for b in ci.node.bases:
                d = dotted(b)
                if d:
                    out |= ancestors(p, d.split(".")[-1], seen + (name,))
    return out


def absorbs(p, h, exc):
    """The handler ends an exception of this class."""
    names = caught(h)
    if always_raises(h.body):
        return False
    return names is None or bool(set(names) & (ancestors(p, exc) | WIDE))


# --------------------------------------------------------------- statements
def check_statements(rep, v):
    for n in v.nodes:
        if isinstance(n, ast.Try):
            for h in n.handlers:
                names = caught(h)
                if (names is None or set(names) & WIDE) and not always_raises(h.body) and not retries(n, h):
                    rep.add(BROAD, "%s except %s" % (short(v.qualname), "/".join(names or ["everything"])), v.loc(h),
                            "a handler for every error goes on as if nothing had happened")
                else:
                    rep.ok(BROAD, short(v.qualname))
            for s in n.finalbody:
                for k in own(s):
                    if isinstance(k, ast.Return):
                        rep.add(HIDE, "%s finally" % short(v.qualname), v.loc(k), "leaving from a finally block discards the error")
        elif isinstance(n, ast.Call) and (v.ext(n.func) or "").endswith("contextlib.suppress"):
            rep.add(HIDE, "%s suppress" % short(v.qualname), v.loc(n), "errors of the block are suppressed")
        elif isinstance(n, (ast.FunctionDef,)) and n.name == "__exit__":
            for k in own(n):
                if isinstance(k, ast.Return) and k.value is not None and not (
                        isinstance(k.value, ast.Constant) and not k.value.value):
                    rep.add(HIDE, "%s __exit__" % short(v.qualname), v.loc(k), "the context manager may suppress errors")
    rep.ok(HIDE, short(v.qualname))


def own(s):
    todo = [s]
    while todo:
        n = todo.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if not isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                todo.append(c)


def short(q):
    return q.replace("cyclic_boosting.", "")


# --------------------------------------------------------------------- runs
def guards(p):
    """node id -> the try statements it is protected by, innermost first."""
    out = {}
    for m in p.modules.values():
        for t in ast.walk(m.tree):
            if isinstance(t, ast.Try):
                for b in t.body:
                    for n in ast.walk(b):
                        out.setdefault(id(n), []).append(t)
    for k in out:
        out[k].sort(key=lambda t: -t.lineno)
    return out


def absorbed(p, prot, ev, exc):
    """The handler that ends an exception of this class raised at the event."""
    for node in [ev.node] + [n for _, n in reversed(ev.stack)]:
        for t in prot.get(id(node), ()):
            for h in t.handlers:
                names = caught(h)
                if names is None or set(names) & (ancestors(p, exc) | WIDE):
                    return None if always_raises(h.body) else h
    return None


def check_events(rep, p, evs, data, name):
    prot = guards(p)
    for ev in evs:
        if ev.kind == "raise" and not ev.data.get("implicit") and ev.data.get("exc"):
            rep.ok(REFUSAL)
            h = absorbed(p, prot, ev, str(ev.data["exc"]).split(".")[-1])
            if h is not None:
                rep.add(REFUSAL, "%s: %s of %s" % (name, ev.data["exc"], short(ev.fi.qualname)), ev.where(),
                        "the error raised here is swallowed by the handler in line %d" % h.lineno, call_path(ev))
        elif ev.kind == "subscript" and set(ev.data["roots"]) & data:
            rep.ok(INPUT)
            h = absorbed(p, prot, ev, "KeyError") or absorbed(p, prot, ev, "IndexError")
            if h is not None:
                rep.add(INPUT, "%s: %s" % (name, short(ev.fi.qualname)), ev.where(),
                        "an unknown column of the caller's table is swallowed by the handler in line %d" % h.lineno, call_path(ev))
        elif ev.kind == "ucall":
            rep.ok(INPUT)
            h = absorbed(p, prot, ev, "ValueError") or absorbed(p, prot, ev, "TypeError")
            if h is not None:
                rep.add(INPUT, "%s: %s" % (name, short(ev.fi.qualname)), ev.where(),
                        "an error of a function given by the caller is swallowed by the handler in line %d" % h.lineno, call_path(ev))


def check_life(rep, p, cls):
    life = world.Life(p, cls)
    life.construct()
    n0 = len(life.it.events)
    for m in ("fit", "fit_transform") + world.APPLY:
        if life.has(m):
            life.run(m, keep=(m == "fit"))
    check_events(rep, p, life.it.events, {"X", "y", "X_orig", "X_for_smoother"}, world.short(cls))
    rep.functions |= life.it.inlined


def check_function(rep, p, fi):
    it = Interp(p)
    it.call_entry(fi, State(it.root))
    check_events(rep, p, it.events, set(), short(fi.qualname))
    rep.functions |= it.inlined


SELFTEST = """
import contextlib
def a(x):
    try:
        return x()
    except Exception:
        return None
def b(x):
    try:
        return x()
    except:
        pass
def c(x):
    with contextlib.suppress(ValueError):
        return x()
def d(x):
    try:
        return x()
    finally:
        return None
def again(x):
    try:
        r = x(True)
    except:
        print("again")
        r = x(False)
    return r
def ok(x):
    try:
        return x["a"]
    except KeyError:
        return None
    except Exception as e:
        raise ValueError("x") from e
    finally:
        print(1)
"""


def selftest(p):
    from ..framework import Report
    m = Module("selftest", "selftest.py", "selftest.py", SELFTEST, p)
    for n, fi in m.functions.items():
        r = Report("selftest")
        for f in (BROAD, HIDE):
            r.rule(f, "")
        check_statements(r, FuncView(p, m, fi.node, n))
        if bool(r.findings) != (n not in ("ok", "again")):
            raise AssertionError("self test %s failed: %s" % (n, list(r.findings)))


def run(p, rep, tier):
    rep.rule(BROAD, "a handler that catches every error ends by raising on all its paths")
    rep.rule(HIDE, "no error is discarded by suppress, by leaving a finally block or by a context manager")
    rep.rule(REFUSAL, "no error raised by the package itself ends in a handler of the package that goes on")
    rep.rule(INPUT, "no error from access to the caller's table or from a function of the caller ends in such a handler")
    for v in views(p):
        rep.guard(v.qualname, check_statements, rep, v)
    parallel(rep, p, world.estimators(p) + world.smoothers(p) + world.transformers(p) + world.chains(p), check_life, world.short)
    parallel(rep, p, exported(p), check_function, lambda f: f.qualname)
    rep.floor(HIDE, 200)
    rep.floor(REFUSAL, 300)
    rep.floor(INPUT, 100)
    selftest(p)
