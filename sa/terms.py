"""Hash-consed terms: the nodes of the value graph.

A term is an operator with arguments.  Arguments are terms or plain hashable
Python data (names, numbers, operator symbols).  Structurally equal terms are
the same Python object, so equality is identity.
"""


class T(object):
    __slots__ = ("op", "args", "uid", "_leaves", "__weakref__")
    _table = {}
    _next = [0]

    def __new__(cls, op, *args):
        key = (op,) + tuple((type(a), a) if not isinstance(a, T) else a for a in args)
        t = cls._table.get(key)
        if t is None:
            t = object.__new__(cls)
            t.op = op
            t.args = args
            t.uid = cls._next[0]
            cls._next[0] += 1
            t._leaves = None
            cls._table[key] = t
        return t

    def __reduce__(self):
        raise TypeError("terms are not picklable")

    def __repr__(self):
        return show(self)

    def kids(self):
        return [a for a in self.args if isinstance(a, T)]


def const(v):
    return T("const", v)


TRUE = const(True)
FALSE = const(False)
NONE = const(None)

_BIN = {
    "Add": "+", "Sub": "-", "Mult": "*", "Div": "/", "Pow": "**", "Mod": "%", "FloorDiv": "//",
    "BitAnd": "&", "BitOr": "|", "BitXor": "^", "LShift": "<<", "RShift": ">>", "MatMult": "@",
}


def show(t, depth=6):
    if not isinstance(t, T):
        return str(t)
    if depth <= 0:
        return "…"

    def s(x):
        return show(x, depth - 1)

    op, a = t.op, t.args
    if op == "const":
        return repr(a[0])
    if op == "sym":
        return a[0]
    if op == "bin":
        return "(%s %s %s)" % (s(a[1]), _BIN.get(a[0], a[0]), s(a[2]))
    if op == "un":
        return "%s(%s)" % (a[0], s(a[1]))
    if op == "cmp":
        return "(%s %s %s)" % (s(a[1]), a[0], s(a[2]))
    if op == "call":
        return "%s(%s)" % (a[0], ", ".join(s(x) for x in a[1:]))
    if op == "kw":
        return "%s=%s" % (a[0], s(a[1]))
    if op == "attr":
        return "%s.%s" % (s(a[0]), a[1])
    if op == "sub":
        return "%s[%s]" % (s(a[0]), s(a[1]))
    if op == "slice":
        return "%s:%s:%s" % tuple("" if x is NONE else s(x) for x in a)
    if op == "phi":
        return "(%s ? %s : %s)" % (s(a[0]), s(a[1]), s(a[2]))
    if op == "mu":
        return "mu%s<%s>" % (a[0], a[1])
    if op == "upd":
        return "%s{[%s]:=%s}" % (s(a[0]), s(a[1]), s(a[2]))
    if op in ("tuple", "list"):
        return "%s(%s)" % (op, ", ".join(s(x) for x in a))
    return "%s(%s)" % (op, ", ".join(s(x) for x in a))


def walk(t, mu=None, seen=None):
    """All terms reachable from t (following loop tables when ``mu`` is given)."""
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(k for k in x.args if isinstance(k, T))
        if x.op == "mu" and mu is not None:
            stack.extend(v for v in mu.get(x, ()) if isinstance(v, T))


def subst(t, mapping, memo=None):
    memo = {} if memo is None else memo
    if not isinstance(t, T):
        return t
    if t in mapping:
        return mapping[t]
    r = memo.get(t)
    if r is not None:
        return r
    if not t.args or not any(isinstance(a, T) for a in t.args):
        r = t
    else:
        na = [subst(a, mapping, memo) if isinstance(a, T) else a for a in t.args]
        r = t if all(x is y for x, y in zip(na, t.args)) else T(t.op, *na)
    memo[t] = r
    return r
