"""What the package consists of (estimators, smoothers, transformers, distributions) and life-cycle runs."""
from .program import AnalysisBroken, ClassInfo
from .state import State, K, Obj, Arr, Seq, PhiV, UNBOUND
from .interp import Interp
from .core import Dead

ESTIMATOR_BASE = "CyclicBoostingBase"
SMOOTHER_BASE = "AbstractBinSmoother"
TRANSFORMER_BASE = "ECdfTransformer"

LEARN = ("fit", "fit_transform")
APPLY = ("predict", "predict_extended", "predict_proba", "transform", "get_feature_contributions")
DATA_PARAMS = ("X", "y", "weights", "x", "feature_groups", "values")


def estimators(p):
    base = p.cls(ESTIMATOR_BASE)
    return [c for c in _sorted(p) if c.is_subclass(base) and not c.has_abstract() and not _unfinished(c)]


def _unfinished(c):
    """Classes whose learning hook still is the raising placeholder of the base class."""
    for n in ("_check_y", "loss", "calc_parameters", "precalc_parameters"):
        hit = c.lookup(n)
        if hit and hit[0] == "method" and hit[1].name == ESTIMATOR_BASE and _only_raises(hit[2].node):
            return True
    return False


def _only_raises(fn):
    import ast
    body = [s for s in fn.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return len(body) >= 1 and isinstance(body[-1], ast.Raise) and len(body) == 1


def smoothers(p):
    base = p.cls(SMOOTHER_BASE)
    return [c for c in _sorted(p) if c.is_subclass(base) and c is not base and c.lookup("fit") and c.lookup("predict")]


def transformers(p):
    base = p.cls(TRANSFORMER_BASE)
    return [c for c in _sorted(p) if c.is_subclass(base)]


def chains(p):
    """Other classes of the package with fit and predict."""
    known = set(estimators(p)) | set(smoothers(p)) | set(transformers(p)) | set(p.subclasses(p.cls(ESTIMATOR_BASE)))
    return [c for c in _sorted(p) if c not in known and c.lookup("fit") and c.lookup("predict")
            and c.lookup("fit")[0] == "method" and not c.has_abstract()]


def distributions(p):
    return [c for c in _sorted(p) if c.lookup("cdf") and c.lookup("ppf")]


def _sorted(p):
    return sorted(p.classes.values(), key=lambda c: c.qualname)


def short(c):
    return c.qualname.replace("cyclic_boosting.", "")


class Life(object):
    """One object followed through construction, training and use; all public paths merged."""

    def __init__(self, p, cls, ctor_kwargs=None, hook=None):
        self.p, self.cls = p, cls
        self.it = Interp(p)
        if hook is not None:
            self.it.call_hook = hook
        self.st = State(self.it.root)
        self.obj = None
        self.params = {}
        self.ctor_kwargs = ctor_kwargs or {}

    def construct(self):
        hit = self.cls.lookup("__init__")
        kw = {}
        if hit:
            for n in hit[2].all_params[1:]:
                if n in self.ctor_kwargs:
                    kw[n] = self.ctor_kwargs[n](self.it, self.st) if callable(self.ctor_kwargs[n]) else self.ctor_kwargs[n]
                else:
                    kw[n] = self.it.sym(self.st, n, label="param:" + n)
        self.params = kw
        try:
            self.obj = self.it.construct(self.cls, self.st, kw)
        except Dead as d:
            raise AnalysisBroken("constructor of %s always raises (%s)" % (self.cls.qualname, d.exc))
        return self.obj

    def run(self, name, keep=True, prefix=""):
        """(value, state, events) of a method call with unknown arguments; state is None if it always raises."""
        fi = self.it.method(self.cls, name)
        n0 = len(self.it.events)
        self.it.epoch += 1
        v, s = self.it.call_entry(fi, self.st, self.obj, prefix=prefix)
        evs = self.it.events[n0:]
        if s is not None and keep:
            self.st = s
        return v, s, evs

    def has(self, name):
        fi = self.it.method(self.cls, name)
        return fi is not None and fi.kind == "function"
