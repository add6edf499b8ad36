"""Smart constructors for terms: constant folding and light normalisation."""
import operator

from .terms import T, const, TRUE, FALSE, NONE
from .extmodel import UFUNC_BIN, UFUNC_CMP, UFUNC_UN

_PYBIN = {
    "Add": operator.add, "Sub": operator.sub, "Mult": operator.mul, "Div": operator.truediv,
    "Pow": operator.pow, "Mod": operator.mod, "FloorDiv": operator.floordiv, "BitAnd": operator.and_,
    "BitOr": operator.or_, "BitXor": operator.xor, "LShift": operator.lshift, "RShift": operator.rshift,
}
_PYCMP = {"<": operator.lt, "<=": operator.le, "==": operator.eq}

BOOL_CALLS = {"numpy.isfinite", "numpy.isnan", "numpy.isinf", "numpy.any", "numpy.all", "numpy.isin", "numpy.in1d",
              "builtins.any", "builtins.all", "builtins.callable", "builtins.bool", "meth.endswith",
              "meth.startswith", "numpy.isclose", "meth.isna", "meth.isin", "meth.notna", "numpy.iscomplexobj"}
BOOL_OPS = {"any", "cmp", "not", "and", "or", "isinstance", "hasattr", "truth"}

NUMERIC_CONST = (int, float, complex, bool)


_memo_bool = {}
_memo_is = {}
_memo_sub = {}


def is_bool(t):
    if t.op == "phi" or t.op == "sub" or t.op == "upd":
        r = _memo_bool.get(t)
        if r is None:
            r = _memo_bool[t] = _is_bool(t)
        return r
    return _is_bool(t)


def _is_bool(t):
    if t.op in BOOL_OPS:
        return True
    if t.op == "const":
        return isinstance(t.args[0], bool)
    if t.op == "call":
        return t.args[0] in BOOL_CALLS
    if t.op == "phi":
        return is_bool(t.args[1]) and is_bool(t.args[2])
    if t.op == "sub":
        return is_bool(t.args[0])
    if t.op == "upd":
        return is_bool(t.args[0])
    return False


def mk_not(t):
    if t.op == "const":
        return const(not t.args[0])
    if t.op == "not":
        return t.args[0]
    return T("not", t)


def _flat(op, ts):
    out = []
    for t in ts:
        if t.op == op:
            out.extend(t.args)
        else:
            out.append(t)
    return out


def mk_and(*ts):
    out = []
    for t in _flat("and", ts):
        if t is FALSE:
            return FALSE
        if t is TRUE or t in out:
            continue
        if mk_not(t) in out:
            return FALSE
        out.append(t)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return T("and", *sorted(out, key=lambda x: x.uid))


def mk_or(*ts):
    out = []
    for t in _flat("or", ts):
        if t is TRUE:
            return TRUE
        if t is FALSE or t in out:
            continue
        if mk_not(t) in out:
            return TRUE
        out.append(t)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return T("or", *sorted(out, key=lambda x: x.uid))


def mk_bin(op, a, b):
    if a.op == "const" and b.op == "const" and op in _PYBIN:
        x, y = a.args[0], b.args[0]
        if isinstance(x, NUMERIC_CONST) and isinstance(y, NUMERIC_CONST) or (
                isinstance(x, str) and isinstance(y, (str, int)) and op in ("Add", "Mult")):
            try:
                if op == "Pow" and abs(y) > 64:
                    raise ValueError
                return const(_PYBIN[op](x, y))
            except Exception:
                pass
    if op == "BitAnd" and is_bool(a) and is_bool(b):
        return mk_and(a, b)
    if op == "BitOr" and is_bool(a) and is_bool(b):
        return mk_or(a, b)
    return T("bin", op, a, b)


def mk_un(op, a):
    if a.op == "const" and isinstance(a.args[0], NUMERIC_CONST):
        v = a.args[0]
        if op == "neg":
            return const(-v)
        if op == "pos":
            return const(+v)
        if op == "inv":
            return const(~v) if not isinstance(v, bool) else const(not v)
    if op == "inv" and is_bool(a):
        return mk_not(a)
    if op == "pos":
        return a
    return T("un", op, a)


def mk_cmp(op, a, b):
    if op == ">":
        op, a, b = "<", b, a
    elif op == ">=":
        op, a, b = "<=", b, a
    elif op == "!=":
        return mk_not(mk_cmp("==", a, b))
    elif op == "is not":
        return mk_not(mk_is(a, b))
    elif op == "is":
        return mk_is(a, b)
    elif op == "not in":
        return mk_not(mk_cmp("in", a, b))
    if op in _PYCMP and a.op == "const" and b.op == "const":
        try:
            return const(bool(_PYCMP[op](a.args[0], b.args[0])))
        except Exception:
            pass
    if op == "==":
        if a is b and a.op in ("ext", "class", "func", "const", "obj", "enum"):
            return TRUE
        ent = ("ext", "class", "func", "obj", "enum")
        if a.op in ent and b.op in ent and a is not b and "obj" not in (a.op, b.op):
            return FALSE
        if (a.op in ent and b.op == "const") or (b.op in ent and a.op == "const"):
            return FALSE
        if a.op == b.op == "tuple":
            if len(a.args) != len(b.args):
                return FALSE
            return mk_and(*[mk_cmp("==", x, y) for x, y in zip(a.args, b.args)])
        if a.uid > b.uid:
            a, b = b, a
    if op == "in" and b.op in ("tuple", "list", "set"):
        alts = [mk_cmp("==", a, x) for x in b.args]
        r = mk_or(*alts)
        return r
    if op == "in" and b.op == "dict":
        return mk_or(*[mk_cmp("==", a, x) for x in b.args[0::2]])
    return T("cmp", op, a, b)


NEVER_NONE_OPS = {"bin", "un", "cmp", "not", "and", "or", "upd", "tuple", "list", "dict", "set", "comp", "fstr",
                  "obj", "func", "class", "mod", "isinstance", "slice", "len", "enum"}


def mk_is(a, b):
    r = _memo_is.get((a, b))
    if r is None:
        r = _memo_is[(a, b)] = _mk_is(a, b)
    return r


def _mk_is(a, b):
    if a is NONE:
        a, b = b, a
    if b is NONE:
        if a.op == "const":
            return const(a.args[0] is None)
        if a.op in NEVER_NONE_OPS:
            return FALSE
        if a.op == "ext":
            return FALSE
        if a.op == "call" and a.args[0].startswith("numpy."):
            return FALSE
        if a.op == "phi":
            return mk_phi(a.args[0], mk_is(a.args[1], b), mk_is(a.args[2], b))
        return T("cmp", "is", a, b)
    if a.op == "const" and b.op == "const" and (isinstance(a.args[0], bool) or isinstance(b.args[0], bool)):
        return const(a.args[0] is b.args[0])
    if a is b and a.op in ("class", "func", "obj", "ext", "const"):
        return TRUE
    if a.op in ("class", "func", "ext") and b.op in ("class", "func", "ext"):
        return FALSE
    return T("cmp", "is", a, b)


def mk_phi(c, a, b):
    if c.op == "const":
        return a if c.args[0] else b
    if a is b:
        return a
    if c.op == "not":
        return mk_phi(c.args[0], b, a)
    if a.op == "phi" and a.args[0] is c:
        a = a.args[1]
    if b.op == "phi" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if is_bool(a) and is_bool(b):
        if a is TRUE:
            return mk_or(c, b)
        if a is FALSE:
            return mk_and(mk_not(c), b)
        if b is FALSE:
            return mk_and(c, a)
        if b is TRUE:
            return mk_or(mk_not(c), a)
    return T("phi", c, a, b)


def mk_sub(a, i):
    if a.op != "phi":
        return _mk_sub(a, i)
    r = _memo_sub.get((a, i))
    if r is None:
        r = _memo_sub[(a, i)] = _mk_sub(a, i)
    return r


def _mk_sub(a, i):
    if a.op == "upd":
        if a.args[1] is i:
            return a.args[2]
        x, y = a.args[1], i
        if x.op == "const" and y.op == "const":
            u, v = x.args[0], y.args[0]
            if isinstance(u, str) and isinstance(v, str):
                return mk_sub(a.args[0], i)
            if type(u) is int and type(v) is int and (u >= 0) == (v >= 0) and u != v:
                return mk_sub(a.args[0], i)
        # disjoint masks: x[~m] after a write to x[m]
        if mk_not(a.args[1]) is i and is_bool(i):
            return mk_sub(a.args[0], i)
    if a.op in ("tuple", "list") and i.op == "const" and type(i.args[0]) is int:
        k = i.args[0]
        if -len(a.args) <= k < len(a.args):
            return a.args[k]
    if a.op == "dict" and i.op == "const":
        for k, v in zip(a.args[0::2], a.args[1::2]):
            if k is i:
                return v
    if a.op == "call" and a.args[0] == "pandas.DataFrame" and len(a.args) > 1 and a.args[1].op == "dict":
        r = mk_sub(a.args[1], i)
        if r.op != "sub":
            return r
    if a.op == "phi":
        x, y = mk_sub(a.args[1], i), mk_sub(a.args[2], i)
        if not (x.op == "sub" and y.op == "sub" and x.args[0] is a.args[1] and y.args[0] is a.args[2]):
            return mk_phi(a.args[0], x, y)
    return T("sub", a, i)


def mk_upd(a, i, v):
    if a.op == "upd" and a.args[1] is i:
        a = a.args[0]
    if v.op == "sub" and v.args[0] is a and v.args[1] is i:
        return a
    return T("upd", a, i, v)


def mk_call(q, args, kwargs=()):
    """kwargs: iterable of (name, term)."""
    if q in UFUNC_BIN and len(args) >= 2 and not kwargs:
        return mk_bin(UFUNC_BIN[q], args[0], args[1])
    if q in UFUNC_CMP and len(args) >= 2 and not kwargs:
        return mk_cmp(UFUNC_CMP[q], args[0], args[1])
    if q in UFUNC_UN and len(args) == 1 and not kwargs:
        return mk_un(UFUNC_UN[q], args[0])
    if q == "numpy.abs" and len(args) == 1 and args[0].op == "const" and isinstance(args[0].args[0], NUMERIC_CONST):
        return const(abs(args[0].args[0]))
    if q == "builtins.bool" and len(args) == 1 and is_bool(args[0]):
        return args[0]
    if q == "builtins.int" and len(args) == 1 and args[0].op == "const" and isinstance(args[0].args[0], (int, bool)):
        return const(int(args[0].args[0]))
    if q == "builtins.str" and len(args) == 1 and args[0].op == "const" and isinstance(args[0].args[0], str):
        return args[0]
    kw = [T("kw", k, v) for k, v in sorted(kwargs, key=lambda kv: kv[0] or "")]
    return T("call", q, *(list(args) + kw))
