"""C30: results are reproducible."""
import ast

from ..syntax import views
from ..uninit import MISSING, Arrays

RANDOM = "random-source"
CLOCK = "clock-or-address-in-result"
ORDER = "unordered-iteration-order"
UNSET = "uninitialised-ufunc-output"
EMPTY = "uninitialised-array"

SEEDED = {"numpy.random.RandomState", "numpy.random.default_rng", "random.Random", "numpy.random.SeedSequence",
          "numpy.random.PCG64", "numpy.random.Generator", "sklearn.utils.check_random_state"}
# functions whose purpose is to draw random numbers
SMEARING = ("smear_discrete_cdftruth", "smear_discrete_cdftruth_qpd")
HAS_STATE = {"sklearn.model_selection.train_test_split", "sklearn.utils.resample", "sklearn.utils.shuffle",
             "sklearn.feature_selection.mutual_info_regression", "sklearn.feature_selection.mutual_info_classif",
             "scipy.optimize.differential_evolution", "scipy.optimize.dual_annealing", "scipy.optimize.basinhopping",
             "sklearn.model_selection.KFold", "sklearn.model_selection.ShuffleSplit"}
STATE_KW = {"random_state", "seed", "rng"}
CLOCKS = {"time.time", "time.perf_counter", "time.monotonic", "time.time_ns", "time.process_time", "datetime.datetime.now",
          "datetime.datetime.utcnow", "datetime.datetime.today", "datetime.date.today", "uuid.uuid4", "uuid.uuid1",
          "os.urandom", "os.getpid", "builtins.id", "builtins.hash", "os.environ.get", "os.getenv", "secrets.token_hex",
          "os.cpu_count", "threading.get_ident", "platform.node", "socket.gethostname"}
INSENSITIVE = {"builtins.sorted", "builtins.set", "builtins.frozenset", "builtins.any", "builtins.all", "builtins.min",
               "builtins.max", "builtins.len", "numpy.unique", "numpy.sort", "builtins.isinstance", "builtins.bool",
               "builtins.sum"}
ORDERING = {"builtins.list", "builtins.tuple", "builtins.enumerate", "builtins.zip", "builtins.iter", "builtins.next",
            "builtins.map", "builtins.filter", "builtins.reversed", "numpy.array", "numpy.asarray", "numpy.fromiter",
            "builtins.dict.fromkeys", "collections.OrderedDict.fromkeys", "pandas.Index", "pandas.Series",
            "itertools.chain", "builtins.str", "builtins.repr"}
SET_METHODS = {"union", "intersection", "difference", "symmetric_difference", "copy"}
UFUNCS = {"log", "exp", "divide", "true_divide", "sqrt", "power", "log10", "log2", "log1p", "expm1", "multiply", "add",
          "subtract", "reciprocal", "arctanh", "arcsinh", "sinh", "cosh", "arccosh", "abs", "floor", "ceil"}


def is_set(v, e):
    return _is_set(v, e) and not of_integers(v, e)


def _is_set(v, e, depth=0):
    if e is None or depth > 6:
        return False
    if isinstance(e, (ast.Set, ast.SetComp)):
        return True
    if isinstance(e, ast.Call):
        q = v.ext(e.func)
        if q in ("builtins.set", "builtins.frozenset"):
            return True
        if isinstance(e.func, ast.Attribute) and e.func.attr in SET_METHODS:
            return _is_set(v, e.func.value, depth + 1)
        return False
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitOr, ast.BitAnd, ast.BitXor, ast.Sub)):
        return _is_set(v, e.left, depth + 1) or _is_set(v, e.right, depth + 1)
    if isinstance(e, ast.AugAssign):
        return _is_set(v, e.target, depth + 1) if not isinstance(e.target, ast.Name) else False
    if isinstance(e, ast.IfExp):
        return _is_set(v, e.body, depth + 1) or _is_set(v, e.orelse, depth + 1)
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == "self" and v.cls is not None:
        return e.attr in set_attributes(v)
    if isinstance(e, ast.Name):
        bs = v.binds.get(e.id, [])
        return any(b is not None and not isinstance(b, ast.AugAssign) and _is_set(v, b, depth + 1) for b in bs)
    return False


def set_attributes(v):
    """Attributes of the class that hold sets."""
    out = getattr(v.cls, "_set_attributes", None)
    if out is None:
        out = v.cls._set_attributes = set()
        for c in v.cls.mro:
            if isinstance(c, str):
                continue
            for f in c.methods.values():
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Assign) and isinstance(n.value, (ast.Set, ast.SetComp, ast.Call)):
                        for t in n.targets:
                            if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self":
                                if not isinstance(n.value, ast.Call) or isinstance(n.value.func, ast.Name) and \
                                        n.value.func.id in ("set", "frozenset"):
                                    out.add(t.attr)
    return out


def of_integers(v, e, depth=0):
    """The set is combined with one built from a range: its elements are integers, whose order never varies."""
    if e is None or depth > 6:
        return False
    if isinstance(e, ast.Call):
        q = v.ext(e.func)
        if q in ("builtins.range", "numpy.arange", "numpy.bincount", "numpy.flatnonzero"):
            return True
        if q == "numpy.unique" and e.args and getattr(e.args[0], "attr", "") == "lex_binned_data":
            return True
        if q in ("builtins.set", "builtins.frozenset") and e.args:
            return of_integers(v, e.args[0], depth + 1)
        if isinstance(e.func, ast.Attribute) and e.func.attr in SET_METHODS:
            return any(of_integers(v, x, depth + 1) for x in [e.func.value] + e.args)
        return False
    if isinstance(e, ast.BinOp):
        return of_integers(v, e.left, depth + 1) or of_integers(v, e.right, depth + 1)
    if isinstance(e, ast.Set):
        return all(isinstance(x, ast.Constant) and isinstance(x.value, (int, float)) for x in e.elts)
    if isinstance(e, ast.Name):
        bs = v.binds.get(e.id, [])
        return bool(bs) and all(b is not None and of_integers(v, b, depth + 1) for b in bs)
    return False


def sorted_later(v, n):
    """x = list(s) followed by x.sort() or by nothing but sorted(x) and other insensitive uses."""
    st = v.stmt(n)
    if not (isinstance(st, ast.Assign) and st.value is n and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name)):
        return False
    name = st.targets[0].id
    ok = False
    for u in v.nodes:
        if isinstance(u, ast.Name) and u.id == name and isinstance(u.ctx, ast.Load):
            par = v.up(u)
            if isinstance(par, ast.Attribute) and par.attr == "sort":
                return True
            if isinstance(par, ast.Call) and v.ext(par.func) in INSENSITIVE or isinstance(par, ast.Compare) and any(
                    isinstance(o, (ast.In, ast.NotIn)) for o in par.ops):
                ok = True
            else:
                return False
    return ok


def commutative(body):
    for s in body:
        if isinstance(s, (ast.Raise, ast.Assert, ast.Continue, ast.Pass)):
            continue
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            continue
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and \
                s.value.func.attr in ("add", "discard", "update", "remove", "debug", "info", "warning"):
            continue
        if isinstance(s, ast.If) and commutative(s.body) and commutative(s.orelse):
            continue
        if isinstance(s, ast.For) and commutative(s.body):
            continue
        if isinstance(s, ast.AugAssign) and isinstance(s.op, (ast.BitOr, ast.BitAnd)):
            continue
        return False
    return True


def consumer(v, n):
    """The call that consumes an expression, looking through generator expressions."""
    par = v.up(n)
    if isinstance(par, ast.Call) and n in par.args:
        return v.ext(par.func) or (par.func.attr if isinstance(par.func, ast.Attribute) else "?")
    return None


def order_uses(v):
    """(node, text) where the iteration order of a set becomes visible."""
    for n in v.nodes:
        if isinstance(n, ast.Call):
            q = v.ext(n.func)
            meth = n.func.attr if isinstance(n.func, ast.Attribute) else None
            if (q in ORDERING or meth == "join") and any(is_set(v, a) for a in n.args):
                if consumer(v, n) in INSENSITIVE or sorted_later(v, n):
                    continue
                yield n, "%s over a set" % (q or meth)
            elif meth == "pop" and not n.args and is_set(v, n.func.value):
                yield n, "pop from a set"
            elif meth == "extend" and n.args and is_set(v, n.args[0]):
                yield n, "list extended by a set"
        elif isinstance(n, ast.For) and is_set(v, n.iter) and not commutative(n.body):
            yield n, "loop over a set"
        elif isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.DictComp)) and any(is_set(v, g.iter) for g in n.generators):
            if consumer(v, n) in INSENSITIVE or isinstance(n, ast.ListComp) and sorted_later(v, n):
                continue
            yield n, "comprehension over a set"
        elif isinstance(n, ast.Starred) and is_set(v, n.value) and not isinstance(v.up(n), ast.Set):
            yield n, "unpacking of a set"


def only_logged(v, n, depth=0):
    """The value reaches nothing but log messages."""
    if depth > 5:
        return False
    x = n
    while True:
        par = v.up(x)
        if par is None:
            return False
        if isinstance(par, ast.Call) and par is not n:
            f = par.func
            q = v.ext(f) or ""
            if isinstance(f, ast.Attribute) and f.attr in ("debug", "info", "warning", "error", "log", "critical"):
                return True
            if q.startswith("logging.") or q in ("builtins.print", "warnings.warn"):
                return True
            if isinstance(f, ast.Attribute) and f.attr == "format" or q in ("builtins.round", "builtins.str"):
                x = par
                continue
            return False
        if isinstance(par, ast.Raise):
            return True
        if isinstance(par, ast.Expr):
            return True
        if isinstance(par, ast.Assign) and len(par.targets) == 1 and isinstance(par.targets[0], ast.Name):
            name = par.targets[0].id
            return all(only_logged(v, u, depth + 1) for u in v.nodes
                       if isinstance(u, ast.Name) and u.id == name and isinstance(u.ctx, ast.Load))
        if isinstance(par, ast.stmt):
            return False
        x = par


def smearing(vs):
    """Names of the smearing functions and of helpers that nothing else uses."""
    users = {}
    for v in vs:
        for n in v.nodes:
            name = n.id if isinstance(n, ast.Name) else n.attr if isinstance(n, ast.Attribute) else None
            if name:
                users.setdefault(name, set()).add(v.qualname.rsplit(".", 1)[-1])
    known = {v.qualname.rsplit(".", 1)[-1] for v in vs}
    out, more = set(SMEARING), True
    while more:
        new = {n for n in known - out if users.get(n) and users[n] <= out}
        out, more = out | new, bool(new)
    return out


def fills(fname, everything):
    """Functions of that name write entries of an argument."""
    for w in everything:
        if w.qualname.rsplit(".", 1)[-1] == fname and isinstance(w.node, ast.FunctionDef):
            args = {a.arg for a in w.node.args.args + w.node.args.kwonlyargs}
            if any(isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id in args
                   for n in w.nodes):
                return True
    return False


def completed(v, made, everything):
    """The array is handed back by an internal function and its callers go on filling it."""
    fname = v.qualname.rsplit(".", 1)[-1]
    if not fname.startswith("_") or fname.startswith("__"):
        return False
    for w in everything:
        for n in w.nodes:
            if not isinstance(n, ast.Call) or getattr(n.func, "attr", getattr(n.func, "id", "")) != fname:
                continue
            st = w.stmt(n)
            names = {k.id for t in getattr(st, "targets", []) for k in ast.walk(t) if isinstance(k, ast.Name)}
            for k in w.nodes:
                if isinstance(k, ast.Name) and k.id in names and isinstance(k.ctx, ast.Load):
                    up = w.up(k)
                    if isinstance(up, ast.Subscript) and isinstance(up.ctx, ast.Store):
                        return True
                    if isinstance(up, ast.keyword):
                        up = w.up(up)
                    if isinstance(up, ast.Call) and fills(getattr(up.func, "attr", getattr(up.func, "id", "")), everything):
                        return True
    return False


def check_view(rep, v, drawing=SMEARING, everything=()):
    fname = v.qualname.rsplit(".", 1)[-1]
    for n in v.nodes:
        if not isinstance(n, ast.Call):
            continue
        q = v.ext(n.func) or ""
        meth = n.func.attr if isinstance(n.func, ast.Attribute) else ""
        kws = {k.arg: k.value for k in n.keywords}
        rep.ok(RANDOM)
        if fname not in drawing:
            bad = None
            if q in SEEDED:
                if not n.args and not (set(kws) & STATE_KW) or any(
                        isinstance(a, ast.Constant) and a.value is None for a in n.args):
                    bad = q + " without a seed"
            elif q.startswith("numpy.random.") or q.startswith("random.") or q.startswith("secrets."):
                bad = q
            elif q in HAS_STATE and not set(kws) & STATE_KW:
                bad = q + " without a random state"
            elif meth in ("rvs", "sample") and not set(kws) & STATE_KW:
                bad = meth + " without a random state"
            if bad:
                rep.add(RANDOM, "%s %s" % (v.qualname, bad), v.loc(n), "%s draws random numbers" % bad)
        if q in CLOCKS:
            rep.ok(CLOCK, "%s %s" % (v.qualname, q))
            if not (q in ("builtins.hash", "builtins.id") and fname in ("__hash__", "__repr__")) and not only_logged(v, n):
                rep.add(CLOCK, "%s %s" % (v.qualname, q), v.loc(n), "the value of %s reaches more than log messages" % q)
        if q.startswith("numpy.") and q[6:] in UFUNCS or q.startswith("numpy.") and "where" in kws and "out" not in kws:
            rep.ok(UNSET)
            if "where" in kws and "out" not in kws and q[6:] in UFUNCS:
                rep.add(UNSET, "%s %s" % (v.qualname, q), v.loc(n),
                        "%s with where= and without out= leaves elements uninitialised" % q)
    for n, verdict in Arrays(v).sites():
        rep.ok(EMPTY, v.qualname)
        if verdict == MISSING and not completed(v, n, everything):
            rep.add(EMPTY, "%s %s" % (v.qualname, ast.unparse(v.stmt(n)).split("\n")[0][:80]), v.loc(n), "not all entries of an array made without values are written")
    for n in v.nodes:
        if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load) and v.ext(n) in ("builtins.id", "builtins.hash") and not (
                isinstance(v.up(n), ast.Call) and v.up(n).func is n):
            rep.add(CLOCK, "%s %s" % (v.qualname, v.ext(n)), v.loc(n), "%s is used as a function that orders or names things" % v.ext(n))
    for n in v.nodes:
        if isinstance(n, ast.expr) and _is_set(v, n) and not isinstance(n, ast.Name):
            rep.ok(ORDER, v.qualname)
    for n, text in order_uses(v):
        rep.add(ORDER, "%s %s" % (v.qualname, text), v.loc(n), "%s: the result depends on the order of a set" % text)


SELFTEST = """
import numpy as np, time
def f(x):
    for c in set(x):
        x[c] = 1
    a = list(set(x) ^ {'b'})
    t = time.time()
    return np.random.uniform(0, 1), np.log(x, where=x > 0), a, t
def h(x, n):
    a = np.empty(n + 1)
    a[:n] = x
    b = np.empty((n, 2))
    b[:, 0] = x
    c = np.empty(len(x))
    c[x > 0] = 1
    d = np.empty(len(x))
    for i in range(1, len(x)):
        d[i] = i
    e = np.empty_like(x)
    e += 1
    return a, b, c, d, e, np.empty(n)
def g(x, n):
    r = np.random.RandomState(3)
    a = sorted(set(x))
    s = set()
    for c in set(x):
        s.add(c)
    t = time.time()
    log.info("%s", t)
    b = np.empty((n + 1, 2))
    b[:-1, 0] = x
    b[n, 0] = 1
    b[:, 1] = x
    c = np.empty(len(x))
    c[x > 0] = 1
    c[~(x > 0)] = 2
    d = np.empty(x.shape[0])
    for i in range(len(x)):
        d[i] = i
    e = np.empty_like(x)
    e[:] = 1
    return b, c, d, e, r, a, s, any(c > 1 for c in set(x))
"""


def selftest(p):
    from ..framework import Report
    from ..program import Module
    from ..syntax import FuncView
    m = Module("selftest", "selftest.py", "selftest.py", SELFTEST, p)
    out = []
    for n in ("f", "g", "h"):
        r = Report("selftest")
        for k in (RANDOM, CLOCK, ORDER, UNSET, EMPTY):
            r.rule(k, "")
        check_view(r, FuncView(p, m, m.functions[n].node, n))
        out.append([f.rule for f in r.findings.values()])
    return out


def run(p, rep, tier):
    rep.rule(RANDOM, "no call draws random numbers without a fixed seed (outside the smearing functions)")
    rep.rule(CLOCK, "clock, process and address values reach nothing but log messages")
    rep.rule(ORDER, "the iteration order of a set never becomes visible")
    rep.rule(EMPTY, "all entries of an array made without values are written before it is used")
    rep.rule(UNSET, "no elementwise function leaves elements uninitialised")
    vs = views(p)
    rep.count("functions and module bodies", len(vs))
    drawing = smearing(vs)
    for v in vs:
        rep.guard(v.qualname, check_view, rep, v, drawing, vs)
    rep.floor(RANDOM, 800)
    rep.floor(ORDER, 3)
    f, g, h = selftest(p)
    if len(set(f)) != 4 or g or len(h) != 6:
        raise AssertionError("self test failed: %s %s %s" % (f, g, h))
