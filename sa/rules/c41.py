"""C41: process-wide settings are left alone."""
import ast

from ..program import dotted
from ..syntax import views

RULE = "process-wide-setting-changed"
CALLS = {
    "numpy.seterr", "numpy.seterrcall", "numpy.set_printoptions", "numpy.random.seed", "numpy.random.set_state",
    "random.seed", "random.setstate", "pandas.set_option", "pandas.reset_option", "sklearn.set_config", "matplotlib.use",
    "matplotlib.pyplot.switch_backend", "matplotlib.style.use", "matplotlib.pyplot.style.use", "matplotlib.rc",
    "matplotlib.pyplot.rc", "matplotlib.rcdefaults", "matplotlib.pyplot.rcdefaults", "matplotlib.rcParams.update",
    "matplotlib.pyplot.rcParams.update", "matplotlib.rcParams.setdefault", "os.chdir", "os.putenv", "os.unsetenv",
    "os.umask", "os.environ.update", "os.environ.setdefault", "os.environ.pop", "sys.setrecursionlimit", "sys.path.append",
    "sys.path.insert", "sys.exit", "sys.setswitchinterval", "os._exit", "os.abort", "locale.setlocale", "gc.disable", "gc.set_threshold", "gc.freeze",
    "signal.signal", "numexpr.set_num_threads", "numexpr.set_vml_num_threads", "numba.set_num_threads", "logging.disable",
    "logging.basicConfig", "logging.captureWarnings", "warnings.resetwarnings", "seaborn.set", "seaborn.set_theme",
    "seaborn.set_style", "decimal.setcontext", "socket.setdefaulttimeout", "faulthandler.enable", "builtins.setattr",
    "matplotlib.pyplot.ion", "matplotlib.pyplot.ioff", "matplotlib.interactive", "multiprocessing.set_start_method",
    "time.tzset", "numpy.setbufsize", "atexit.register", "threading.setprofile", "sys.settrace", "builtins.exit", "builtins.quit",
}
SCOPED = {"warnings.simplefilter", "warnings.filterwarnings"}
TARGETS = ("os.environ", "matplotlib.rcParams", "matplotlib.pyplot.rcParams", "pandas.options", "numba.config", "sys.",
           "numpy.", "pandas.", "scipy.", "sklearn.", "warnings.", "logging.", "numexpr.", "random.")
LOGGERS = {"logging.getLogger"}
SCOPES = {"warnings.catch_warnings", "numpy.errstate", "matplotlib.rc_context", "matplotlib.pyplot.rc_context"}


def in_scope(v, n, kinds):
    x = n
    while x is not None:
        if isinstance(x, ast.With):
            for it in x.items:
                if isinstance(it.context_expr, ast.Call) and v.ext(it.context_expr.func) in kinds:
                    return True
        x = v.up(x)
    return False


def restored(v, q):
    """old = np.seterr(...) ... finally: np.seterr(**old)"""
    for n in v.nodes:
        if isinstance(n, ast.Try):
            for s in n.finalbody:
                for c in ast.walk(s):
                    if isinstance(c, ast.Call) and v.ext(c.func) == q:
                        return True
    return False


def check_view(rep, v):
    for n in v.nodes:
        if isinstance(n, ast.Call):
            q = v.ext(n.func)
            if q is None:
                f = n.func
                if isinstance(f, ast.Attribute) and f.attr in ("setLevel", "addHandler", "removeHandler", "propagate"):
                    rep.ok(RULE)
                    if root_logger(v, f.value):
                        rep.add(RULE, "%s root logger %s" % (v.qualname, f.attr), v.loc(n), "the root logger is configured")
                continue
            rep.ok(RULE)
            if q == "builtins.setattr":
                if n.args and v.ext(n.args[0]) is not None and not isinstance(n.args[0], ast.Constant):
                    rep.add(RULE, "%s setattr %s" % (v.qualname, v.ext(n.args[0])), v.loc(n),
                            "an attribute of %s is replaced" % v.ext(n.args[0]))
                continue
            if q in CALLS and not restored(v, q) and not (q.startswith("matplotlib") and in_scope(v, n, SCOPES)):
                rep.add(RULE, "%s %s" % (v.qualname, q), v.loc(n), "%s changes a setting of the whole process" % q)
            elif q in SCOPED and not in_scope(v, n, {"warnings.catch_warnings"}):
                rep.add(RULE, "%s %s" % (v.qualname, q), v.loc(n),
                        "%s outside warnings.catch_warnings changes the warning filters of the process" % q)
        targets = []
        if isinstance(n, ast.Assign):
            targets = n.targets
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            targets = [n.target]
        elif isinstance(n, ast.Delete):
            targets = n.targets
        for t in targets:
            base = t
            if isinstance(t, ast.Subscript):
                base = t.value
            elif not isinstance(t, ast.Attribute):
                continue
            q = v.ext(base) if isinstance(base, (ast.Attribute, ast.Name)) else None
            if q is None or dotted(base) is None:
                continue
            rep.ok(RULE)
            if q.startswith(TARGETS) and not in_scope(v, n, SCOPES):
                rep.add(RULE, "%s assigns %s" % (v.qualname, q), v.loc(n), "%s is a setting of the whole process" % q)


def root_logger(v, e):
    if isinstance(e, ast.Name):
        bs = v.binds.get(e.id) or v.module.assigns.get(e.id) or []
        return any(b is not None and root_logger(v, b) for b in bs)
    if isinstance(e, ast.Call) and v.ext(e.func) in LOGGERS:
        return not e.args or isinstance(e.args[0], ast.Constant) and not e.args[0].value
    return False


SELFTEST = """
import numpy as np, warnings, os, logging
import matplotlib as mpl
def a():
    np.seterr(all="ignore")
def b():
    warnings.simplefilter("ignore")
def c():
    os.environ["X"] = "1"
def d():
    mpl.rcParams["font.size"] = 3
def e():
    logging.getLogger().setLevel(10)
def ok(rc):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
    rcParams = {}
    rcParams["font.size"] = 2
    with np.errstate(all="ignore"):
        pass
    logging.getLogger(__name__).info("x")
"""


def selftest(p):
    from ..framework import Report
    from ..program import Module
    from ..syntax import FuncView
    m = Module("selftest", "selftest.py", "selftest.py", SELFTEST, p)
    for n, fi in m.functions.items():
        r = Report("selftest")
        r.rule(RULE, "")
        check_view(r, FuncView(p, m, fi.node, n))
        if bool(r.findings) != (n != "ok"):
            raise AssertionError("self test %s failed" % n)


def run(p, rep, tier):
    rep.rule(RULE, "no function or module body changes a process-wide setting of Python or of a library outside a scope "
                   "that restores it")
    vs = views(p)
    rep.count("functions and module bodies", len(vs))
    for v in vs:
        rep.guard(v.qualname, check_view, rep, v)
    rep.floor(RULE, 800)
    selftest(p)
