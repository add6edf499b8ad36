"""Linear forms of values of the value graph, case by case."""
from .pointwise import Pointwise, args, is_mask, kws
from .terms import T, walk

ZERO = {}


class Fork(Exception):
    def __init__(self, atom):
        self.atom = atom


def plus(a, b, k=1):
    out = dict(a)
    for x, c in b.items():
        c = out.get(x, 0) + k * c
        if c:
            out[x] = c
        else:
            out.pop(x, None)
    return out


class Linear(object):
    """``atom(term, env)`` may replace a term by a linear form (or None); ``decide`` likewise settles a condition."""

    def __init__(self, mu, atom, decide=None):
        self.pw = Pointwise(mu, ())
        self.atom = atom
        self.decide = decide or (lambda t, lin: None)
        self.env = {}

    def cases(self, terms, limit=3000):
        """[(decisions, [linear form or truth value of each term])]; a pair (kind, term) selects form, truth or pick."""
        out, todo, n = [], [{}], 0
        while todo:
            self.env = todo.pop()
            n += 1
            if n > limit:
                raise OverflowError("too many cases")
            try:
                out.append((self.env, [getattr(self, kind)(t) for kind, t in terms]))
            except Fork as f:
                for v in (True, False):
                    e = dict(self.env)
                    e[f.atom] = v
                    todo.append(e)
        return out

    def truth(self, t):
        r = self.decide(t, self)
        if r is not None:
            return r
        op, a = t.op, t.args
        if op == "const":
            return bool(a[0])
        if op == "not":
            return not self.truth(a[0])
        if op in ("and", "or"):
            for k in a:
                if self.truth(k) != (op == "and"):
                    return op != "and"
            return op == "and"
        if op == "truth":
            return self.truth(a[0])
        if op == "phi":
            return self.truth(a[1] if self.truth(a[0]) else a[2])
        if t in self.env:
            return self.env[t]
        raise Fork(t)

    def pick(self, t):
        """The alternative that is taken."""
        while t.op == "phi":
            t = t.args[1] if self.truth(t.args[0]) else t.args[2]
        return t

    def forms(self, t):
        """Forms of the named columns the alternative that is taken is computed from."""
        t = self.pick(t)
        return {x.args[1].args[0]: self.form(x) for x in walk(t) if x.op == "sub" and x.args[1].op == "const"
                and isinstance(x.args[1].args[0], str)}

    def form(self, t):
        r = self.atom(t, self)
        if r is not None:
            return r
        op, a = t.op, t.args
        if op == "const":
            return ZERO if not a[0] else {T("const", 1): a[0]} if isinstance(a[0], (int, float)) else {t: 1}
        if op == "phi":
            return self.form(a[1] if self.truth(a[0]) else a[2])
        if op == "bin" and a[0] in ("Add", "Sub"):
            return plus(self.form(a[1]), self.form(a[2]), 1 if a[0] == "Add" else -1)
        if op == "un" and a[0] == "neg":
            return plus(ZERO, self.form(a[1]), -1)
        if op == "bin" and a[0] == "Mult":
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                if x.op == "const" and isinstance(x.args[0], (int, float)):
                    return plus(ZERO, self.form(y), x.args[0]) if x.args[0] else ZERO
        if op == "call" and a[0] in ("cast", "numpy.asarray", "numpy.array", "meth.copy", "numpy.copy"):
            return self.form(a[1])
        if op == "call" and a[0] in ("numpy.zeros", "numpy.zeros_like"):
            return ZERO
        if op == "call" and a[0] in ("numpy.add", "numpy.subtract") and len(args(t)) in (2, 3):
            x, y = args(t)[:2]
            return plus(self.form(x), self.form(y), 1 if a[0] == "numpy.add" else -1)
        if op == "call" and a[0] in ("numpy.full", "numpy.full_like"):
            v = args(t)[1] if len(args(t)) > 1 else kws(t).get("fill_value")
            return self.form(v) if v is not None else {t: 1}
        if op == "call" and a[0] in ("numpy.ones", "numpy.ones_like"):
            return {T("const", 1): 1}
        if op == "call" and a[0] == "numpy.negative":
            return plus(ZERO, self.form(args(t)[0]), -1)
        if op == "filled":
            return self.form(a[0])
        if op == "attr" and a[1] == "values":
            return self.form(a[0])
        if op == "sub":
            if a[1].op == "const" and isinstance(a[1].args[0], str):
                c = self.pw.column(a[0], a[1])
                if c is not t:
                    return self.form(c)
            elif not is_mask(a[1]) and a[1].op not in ("const", "slice", "tuple"):
                # an entry per row, looked up by a number per row
                v = self.form(a[0])
                if not any(isinstance(k, T) and k.op == "looked up" for k in v):
                    return {T("looked up", k, a[1]): c for k, c in v.items()}
        return {t: 1}
