"""C26: a value is given the bin whose boundaries enclose it, or none."""
from .. import world
from ..algebra import Algebra, Reader, TooLarge, Undefined, Unknown, cases
from ..interp import Interp
from ..state import State
from ..terms import T, show, walk

SEARCH = "search-by-halving"
EACH = "search-of-each-value"
BETWEEN = "value-between-boundaries"
TABLE = "boundaries-searched"
MISSING = "missing-values-get-no-bin"
WIDTH = "bin-numbers-fit-their-type"

MODULE = "cyclic_boosting.binning._binary_search."


def entry(rep, p, name, opaque=()):
    fi = p.func(MODULE + name)
    it = Interp(p)
    it.no_inline = {p.func(MODULE + n).qualname for n in opaque}
    v, st = it.call_entry(fi, State(it.root), None, prefix="")
    rep.functions |= it.inlined
    names = [a.arg for a in fi.node.args.posonlyargs + fi.node.args.args]
    return fi, it, (it.term(v, st) if st is not None else None), names


def const(t):
    return t.args[0] if t.op == "const" and isinstance(t.args[0], (int, float)) else None


def strip(t):
    while t.op == "call" and t.args[0] in ("cast", "builtins.int", "builtins.float") and len(t.args) > 1:
        t = t.args[1]
    return t


# search by halving: by induction over its loop

def linear(t, flag, on, n):
    """(symbol, offset) of a number of the form symbol + offset."""
    t = strip(t)
    if const(t) is not None:
        return None, t.args[0]
    if t is n or t.op == "len" and n.op == "sub" and t.args[0] is n.args[0].args[0]:
        return "n", 0
    if t.op == "sym" and t is not flag:
        return t.args[0], 0
    if t is flag or t.op == "truth" and t.args[0] is flag:
        return None, int(on)
    if t.op == "phi":
        c, want = t.args[0], on
        while c.op in ("truth", "not"):
            want = want if c.op == "truth" else not want
            c = c.args[0]
        if c is flag:
            return linear(t.args[1] if want else t.args[2], flag, on, n)
    if t.op == "bin" and t.args[0] in ("Add", "Sub"):
        x, y = (linear(k, flag, on, n) for k in t.args[1:])
        if x and y:
            if t.args[0] == "Sub" and y[0] is None:
                return x[0], x[1] - y[1]
            if t.args[0] == "Add" and None in (x[0], y[0]):
                return x[0] or y[0], x[1] + y[1]
    raise Unknown(show(t, 3))


def offset(t, base):
    """c of base + c."""
    if t is base:
        return 0
    if t.op == "bin" and t.args[0] in ("Add", "Sub"):
        x, y = t.args[1:]
        if t.args[0] == "Add" and y is base:
            x, y = y, x
        if x is base and const(y) is not None:
            return const(y) if t.args[0] == "Add" else -const(y)
    return None


def middle(t, a, b):
    """Whether t is floor((a + b) / 2)."""
    t = strip(t)
    if t.op == "bin" and (t.args[0], const(t.args[2])) in (("FloorDiv", 2), ("RShift", 1)):
        s = t.args[1]
        return s.op == "bin" and s.args[0] == "Add" and set(s.args[1:]) == {a, b}
    if t.op == "bin" and t.args[0] == "Add":
        for x, y in (t.args[1:], t.args[:0:-1]):
            if x is a and y.op == "bin" and (y.args[0], const(y.args[2])) in (("FloorDiv", 2), ("RShift", 1)):
                d = y.args[1]
                return d.op == "bin" and d.args[0] == "Sub" and d.args[1] is b and d.args[2] is a
    return False


FLIP = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}
NOT = {"<": ">=", "<=": ">", ">": "<=", ">=": "<"}


def relation(c, x, y, holds=True):
    """How x compares to y if the condition holds."""
    while c.op in ("truth", "not"):
        holds = holds if c.op == "truth" else not holds
        c = c.args[0]
    if c.op != "cmp" or c.args[0] not in FLIP:
        return None
    op = c.args[0]
    if c.args[1] is y and c.args[2] is x:
        op = FLIP[op]
    elif not (c.args[1] is x and c.args[2] is y):
        return None
    return op if holds else NOT[op]


def moves(it, a, b):
    """(condition, holds) under which a moves, new value of a, new value of b."""
    na, nb = it.mu[a][1], it.mu[b][1]
    if na.op != "phi" or nb.op != "phi":
        return None
    for first, pick in ((True, 1), (False, 2)):
        if na.args[0] is nb.args[0] and na.args[3 - pick] is a and nb.args[pick] is b:
            return na.args[0], first, na.args[pick], nb.args[3 - pick]
    return None


def halving(rep, p, name):
    fi, it, result, names = entry(rep, p, name)
    if result is None or len(it.mu) != 2:
        rep.skipped(name, "no loop over two limits")
        return
    z, s, flag = (T("sym", n) for n in names[:3])
    n = T("sub", T("attr", z, "shape"), T("const", 0))
    shapes = [x for k in it.mu for x in walk(it.mu[k][0]) if x.op == "sub" and x.args[0].op == "attr" and x.args[0].args[1] == "shape"]
    n = shapes[0] if shapes else n
    found = None
    for a, b in (list(it.mu), list(it.mu)[::-1]):
        m = moves(it, a, b)
        if m is None:
            continue
        probes = [x.args[1] for x in walk(m[0]) if x.op == "sub" and x.args[0] is z]
        if len(set(probes)) != 1:
            continue
        i = probes[0]
        ca, cb = offset(m[2], i), offset(m[3], i)
        rel = relation(m[0], [x for x in walk(m[0]) if x.op == "sub" and x.args[0] is z][0], s, m[1])
        if ca is None or cb is None or rel is None:
            continue
        if not rel[0] == "<":
            continue        # a is the limit that moves up
        found = a, b, i, ca, cb, rel
    if found is None:
        rep.skipped(name, "no search by halving")
        return
    a, b, i, ca, cb, rel = found
    if not (middle(i, a, b) or middle(i, b, a)):
        rep.skipped(name, "probe not recognised: " + show(i, 3))
        return
    last = name.startswith("le")
    # all indices below a + la belong to the left, all from b + rb on to the right
    la, rb = 1 - ca, -cb
    rep.ok(SEARCH, name + ": comparison")
    want = "<=" if last else "<"
    if rel != want:
        rep.add(SEARCH, name + ": comparison", fi.loc(), "values equal to the one searched for are put on the wrong side")
    low, high = (None, "n") if len(names) < 5 else (names[3], names[4])
    for on in (False, True):
        what = "%s: limits%s" % (name, ", always a valid index" if on else "")
        try:
            l0, r0 = (linear(it.mu[k][0], flag, on, n) for k in (a, b))
        except Unknown as e:
            rep.skipped(what, "not recognised: %s" % e)
            continue
        rep.ok(SEARCH, what)
        left = (low, int(last and on))
        right = (high, -int(not last and on))
        if (l0[0], l0[1] + la) != left:
            rep.add(SEARCH, what, fi.loc(), "the search starts at index %s instead of %s" % (text(l0[0], l0[1] + la), text(*left)))
        if (r0[0], r0[1] + rb) != right:
            rep.add(SEARCH, what, fi.loc(), "the search ends before index %s instead of %s" % (text(r0[0], r0[1] + rb), text(*right)))
    gap = loop_gap(it, a, b)
    if gap is None:
        rep.skipped(name + ": end", "condition of the loop not recognised")
    else:
        rep.ok(SEARCH, name + ": end")
        if gap + rb - la > 0:
            rep.add(SEARCH, name + ": end", fi.loc(), "the search ends with %d elements left undecided" % (gap + rb - la))
        elif gap + rb - la < 0 or la + rb not in (0, 1):
            rep.add(SEARCH, name + ": end", fi.loc(), "the search does not end")
    for k, d in ((a, la), (b, rb)):
        off = offset(strip(result), k)
        if off is not None:
            rep.ok(SEARCH, name + ": result")
            # the limit is (first index of the right) - d
            if off - d != (-1 if last else 0):
                rep.add(SEARCH, name + ": result", fi.loc(), "the index returned is off by %d" % (off - d + (1 if last else 0)))
            return
    rep.skipped(name + ": result", "not recognised: " + show(result, 3))


def text(sym, off):
    return str(off) if sym is None else sym if not off else "%s %s %d" % (sym, "+" if off > 0 else "-", abs(off))


def loop_gap(it, a, b):
    """k if the loop goes on while b - a > k."""
    out = set()
    for e in it.events:
        if e.kind != "branch" or e.facts is None:
            continue
        for f, holds in e.facts.items():
            if f.op == "not":
                f, holds = f.args[0], not holds
            if f.op != "cmp" or f.args[0] not in FLIP:
                continue
            op, x, y = f.args
            if op in (">", ">="):
                op, x, y = FLIP[op], y, x
            if not holds:
                op, x, y = ("<" if op == "<=" else "<="), y, x
            k = distance(x, y, a, b)
            if k is not None:
                out.add(k if op == "<" else k - 1)
    return out.pop() if len(out) == 1 else None


def distance(x, y, a, b):
    """k of x < y  <=>  b - a > k."""
    ox, oy = offset(x, a), offset(y, b)
    if ox is not None and oy is not None:
        return ox - oy
    if const(x) is not None and y.op == "bin" and y.args[0] == "Sub" and y.args[1] is b and y.args[2] is a:
        return const(x)
    return None


# functions that search many values

def stored(it, name):
    """(conditions, value) of what is stored in array `name`, element by element."""
    for m, (init, nxt) in it.mu.items():
        if init is not T("sym", name):
            continue
        out = []

        def go(t, conds):
            if t.op == "phi":
                go(t.args[1], conds + [(t.args[0], True)])
                go(t.args[2], conds + [(t.args[0], False)])
            elif t.op == "upd" and t.args[0] is m:
                if t.args[2].op == "phi":
                    v = t.args[2]
                    for k, h in ((1, True), (2, False)):
                        go(T("upd", t.args[0], t.args[1], v.args[k]), conds + [(v.args[0], h)])
                else:
                    out.append((conds, t.args[1], t.args[2]))
            else:
                raise Unknown("element not stored")
        go(nxt, [])
        return out
    raise Unknown("no array stored element by element")


def searches(t, p):
    """Calls of a search in a term: (name, arguments)."""
    out = {}
    for x in walk(t):
        if x.op == "apply" and x.args[0].op == "func":
            for n in ("le", "ge", "le_interp"):
                if x.args[0].args[0] == p.func(MODULE + n).qualname:
                    out[x] = (n, x.args[1:])
    return out


def is_nan(t):
    return t.op == "ext" and t.args[0].endswith(".nan") or t.op == "const" and t.args[0] != t.args[0]


def same(known, t, want):
    """Whether two numbers are equal for all values of `known` (term -> name or value)."""
    def compute(answers):
        a = Algebra(answers)

        def go():
            env = {k.uid: a.symbol(v) for k, v in known.items()}
            w = want(a) if callable(want) else Reader(a, env).value(want)
            return a.equal(Reader(a, env).value(t), w)
        try:
            return a.calculate(go)
        except Undefined:
            return False
    return all(r for _, r in cases(compute))


def equality(rep, p, name="eq_multi"):
    fi, it, _, names = entry(rep, p, name, ("le", "ge"))
    z, many, u, eps, result = names[:5]
    seen = set()
    for conds, idx, v in stored(it, result):
        x = T("sub", T("sym", many), idx)
        known = {x: "x", T("sym", eps): "eps"}
        calls = searches(v, p)
        for c, _ in conds:
            calls.update(searches(c, p))
        if len(calls) != 1:
            raise Unknown("%d searches for one value" % len(calls))
        j, (kind, args) = list(calls.items())[0]
        zj = T("sub", T("sym", z), j)
        inside = None
        for c, holds in conds:
            cc, h = c, holds
            while cc.op == "not":
                cc, h = cc.args[0], not h
            if cc.op == "cmp" and cc.args[0] in ("<=", "<") and any(k is zj for k in walk(cc)):
                d, e = cc.args[1:]
                if d.op == "call" and d.args[0].rpartition(".")[2] in ("abs", "fabs", "absolute"):
                    d = d.args[1]
                    k2 = dict(known)
                    k2[zj] = "z"
                    # |z| and |x| of the relative tolerance
                    close = d.op == "bin" and d.args[0] == "Sub" and set(d.args[1:]) == {zj, x}
                    inside = (h, close and same(k2, e, T("sym", eps)))
        if inside is None:
            raise Unknown("comparison of value and boundary")
        if "search" not in seen:
            seen.add("search")
            rep.ok(EACH, name + ": value searched")
            op = args[1]
            good = args[0] is T("sym", z) and op.op == "bin" and op.args[0] == "Add" and set(op.args[1:]) == {x, T("sym", eps)}
            if kind != "le":
                rep.add(EACH, name + ": value searched", fi.loc(), "the first instead of the last of equal boundaries is found")
            elif not good:
                rep.add(EACH, name + ": value searched", fi.loc(), "%s is searched for instead of the value with its tolerance" % show(op, 4))
        if inside[0] and "close" not in seen:
            seen.add("close")
            rep.ok(EACH, name + ": accepted")
            if not inside[1]:
                rep.add(EACH, name + ": accepted", fi.loc(), "a boundary is accepted that is not equal to the value within the tolerance")
        what = name + (": found" if inside[0] else ": not found")
        rep.ok(EACH, what)
        if inside[0] and v is not T("sub", T("sym", u), j):
            rep.add(EACH, what, fi.loc(), "a value found gets %s" % show(v, 3))
        if not inside[0] and not is_nan(v):
            rep.add(EACH, what, fi.loc(), "a value not found gets %s" % show(v, 3))


def each(rep, p, name, one, order):
    """name stores one(...) of each value."""
    fi, it, _, names = entry(rep, p, name, (one,))
    got = stored(it, names[-1])
    for conds, idx, v in got:
        calls = searches(v, p)
        if len(calls) != 1:
            raise Unknown("%d searches for one value" % len(calls))
        c, (_, args) = list(calls.items())[0]
        want = [T("sub", T("sym", n), idx) if n == names[1] else T("sym", n) for n in names[:order]]
        rep.ok(EACH, name + ": each value")
        if v is not c or list(args) != want:
            rep.add(EACH, name + ": each value", fi.loc(), "a value gets %s" % show(v, 4))


# interpolation

def resolve(t, truth):
    while t.op == "phi":
        t = t.args[1] if truth(t.args[0]) else t.args[2]
    return t


def interpolation(rep, p, name="le_interp"):
    fi, it, t, names = entry(rep, p, name, ("le", "ge"))
    z, s, u, out, eps = (T("sym", n) for n in names[:5])
    calls = searches(t, p) if t is not None else {}
    if len(calls) != 1:
        raise Unknown("%d searches" % len(calls))
    j, (kind, args) = list(calls.items())[0]
    rep.ok(BETWEEN, name + ": search")
    op = args[1]
    if kind != "le" or args[0] is not z or not (op.op == "bin" and op.args[0] == "Add" and set(op.args[1:]) == {s, eps}) or const(args[2]) not in (0, False):
        rep.add(BETWEEN, name + ": search", fi.loc(), "%s is searched for" % show(op, 3))
        return
    zj = T("sub", z, j)

    def truth_in(case):
        finite, nn, jj, above = case

        def num(x):
            x = strip(x)
            if const(x) is not None:
                return const(x)
            if x is j:
                return jj
            if x.op == "len" and x.args[0] is z or x.op == "sub" and x.args[0].op == "attr" and x.args[0].args == (z, "shape"):
                return nn
            if x.op == "bin" and x.args[0] in ("Add", "Sub"):
                a, b = num(x.args[1]), num(x.args[2])
                return a + b if x.args[0] == "Add" else a - b
            raise Unknown("condition %s" % show(x, 3))

        def truth(c):
            if c.op == "not":
                return not truth(c.args[0])
            if c.op == "truth":
                return truth(c.args[0])
            if c.op in ("and", "or"):
                return (all if c.op == "and" else any)(truth(k) for k in c.args)
            if c.op == "call" and c.args[0].rpartition(".")[2] == "isfinite" and c.args[1] is s:
                return finite
            if c.op == "cmp":
                r = relation(c, zj, s)
                if r is not None:
                    return above if r in ("<", "<=") else not above
                o, a, b = c.args[0], num(c.args[1]), num(c.args[2])
                return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[o]
            raise Unknown("condition %s" % show(c, 3))
        return truth

    def known(leaf):
        names_ = {s: "x", out: "outside", T("sub", z, j): "z0", T("sub", u, j): "u0"}
        for x in walk(leaf):
            if x.op == "sub" and offset(x.args[1], j) == 1:
                names_[x] = "z1" if x.args[0] is z else "u1" if x.args[0] is u else "?"
        return names_

    def line(a):
        x, z0, z1, u0, u1 = (a.symbol(n) for n in ("x", "z0", "z1", "u0", "u1"))
        return a.add(u0, a.mul(a.div(a.sub(x, z0), a.sub(z1, z0)), a.sub(u1, u0)))

    plan = [("not finite", [(False, 5, 2, True)], None), ("no boundaries", [(True, 0, -1, True)], None),
            ("below all boundaries", [(True, 1, -1, False), (True, 5, -1, True)], lambda a: a.symbol("outside")),
            ("above all boundaries", [(True, 1, 0, True), (True, 5, 4, True)], lambda a: a.symbol("u0")),
            ("between two boundaries", [(True, 2, 0, True), (True, 5, 3, True), (True, 5, 0, True)], line),
            ("on a boundary", [(True, 5, 0, False), (True, 5, 3, False)], lambda a: a.symbol("u0"))]
    for label, some, want in plan:
        what = "%s: %s" % (name, label)
        try:
            bad = None
            for case in some:
                leaf = resolve(t, truth_in(case))
                if want is None:
                    good = is_nan(leaf)
                else:
                    k = known(leaf)
                    if label == "on a boundary":
                        k[s] = "z0"
                    good = not is_nan(leaf) and same(k, leaf, want)
                if not good:
                    bad = leaf
        except (Unknown, TooLarge) as e:
            rep.skipped(what, "no model (%s)" % e)
            continue
        rep.ok(BETWEEN, what)
        if bad is not None:
            rep.add(BETWEEN, what, fi.loc(), "a value gets %s" % show(bad, 4))


# the transformers

def leaves(t):
    return [x for k in t.args[1:] for x in leaves(k)] if t.op == "phi" else [t]


def column_of(t):
    """(table, first row, column) of table[first:, column]."""
    if t.op != "sub" or t.args[1].op != "tuple" or len(t.args[1].args) != 2:
        return None
    rows, col = t.args[1].args
    if rows.op != "slice" or const(col) is None:
        return None
    parts = [None if k is None or isinstance(k, T) and k.op == "const" and k.args[0] is None else k for k in rows.args]
    if any(k is not None for k in parts[1:]):
        return None
    first = 0 if not parts or parts[0] is None else const(parts[0])
    return None if first is None else (t.args[0], first, const(col))


def record(t, k):
    """The records of which t is entry k."""
    out = set()
    for x in leaves(t):
        if x.op != "sub" or const(x.args[1]) != k:
            return None
        out.add(x.args[0])
    return out


def sites(rep, who, it, st, events, p):
    names = {p.func(MODULE + n).qualname: n for n in ("ge_multi", "eq_multi", "le_interp_multi")}
    for e in events:
        if e.kind != "icall" or e.data["fi"].qualname not in names:
            continue
        name = names[e.data["fi"].qualname]
        params = [a.arg for a in e.data["fi"].node.args.args]
        # terms at the time of the call: results are written into the arguments
        given = {}
        for n, v in list(zip(params, e.data["args"])) + list(e.data["kwargs"].items()):
            given[n] = it.term(v, st)
        what = "%s: %s" % (who, name)
        tab = column_of(given[params[0]])
        if tab is None:
            rep.skipped(what, "boundaries not recognised: " + show(given[params[0]], 3))
            continue
        rep.ok(TABLE, what + ", boundaries")
        wanted = 1 if name == "ge_multi" or given[params[2]].op == "call" else 0
        if tab[2] != 0 or tab[1] != wanted:
            rep.add(TABLE, what + ", boundaries", e.loc(), "boundaries are taken from row %d, column %d of the table" % tab[1:])
        eps = None
        if name == "ge_multi":
            rep.ok(TABLE, what + ", last bin")
            if not const(given[params[2]]):
                rep.add(TABLE, what + ", last bin", e.loc(), "values above the last boundary are put into a bin that does not exist")
            x = given[params[1]]
            if x.op == "bin" and x.args[0] in ("Add", "Sub"):
                eps = x.args[2]
                rep.ok(TABLE, what + ", tolerance")
                if x.args[0] == "Add":
                    rep.add(TABLE, what + ", tolerance", e.loc(), "the tolerance is added to the values: those on a boundary fall into the next bin")
        else:
            u = given[params[2]]
            rep.ok(TABLE, what + ", results")
            good = column_of(u) == (tab[0], tab[1], 1)
            if u.op == "call" and u.args[0].endswith(".arange"):
                n = strip(u.args[1])
                good = any(k is given[params[0]] for k in walk(n)) or n.op == "bin"
            if not good:
                rep.add(TABLE, what + ", results", e.loc(), "results are taken from %s" % show(u, 3))
            eps = given[params[4] if name == "le_interp_multi" else params[3]]
            if name == "le_interp_multi":
                rep.ok(TABLE, what + ", below the first boundary")
                if const(given[params[3]]) != 0:
                    rep.add(TABLE, what + ", below the first boundary", e.loc(), "values below all boundaries get %s" % show(given[params[3]], 2))
        ours = record(tab[0], 2)
        if eps is not None and ours is not None:
            if record(eps, 1) == ours:
                rep.ok(TABLE, what + ", tolerance of the feature")
            elif any(x.op in ("sym", "const") for x in leaves(eps)) or record(eps, 1) is not None:
                rep.ok(TABLE, what + ", tolerance of the feature")
                rep.add(TABLE, what + ", tolerance of the feature", e.loc(), "the tolerance is %s instead of the one of the boundaries" % show(eps, 3))


class Row(object):
    """Value of one row of a column."""

    def __init__(self, it, masks, **case):
        self.it, self.masks, self.case, self.memo = it, masks, case, {}

    def value(self, t):
        r = self.memo.get(t.uid)
        if r is None:
            r = self.memo[t.uid] = self._value(t)
        return r

    def _value(self, t):
        t = strip(t)
        if const(t) is not None:
            return t.args[0]
        if is_nan(t):
            return "nan"
        if t.op == "phi":
            c = self.truth(t.args[0])
            if c is not None:
                return self.value(t.args[1] if c else t.args[2])
            x, y = self.value(t.args[1]), self.value(t.args[2])
            if x != y:
                raise Unknown("value depends on %s" % show(t.args[0], 3))
            return x
        if t.op == "upd":
            c = self.truth(t.args[1])
            if c is None:
                raise Unknown("rows %s" % show(t.args[1], 3))
            return self.value(t.args[2] if c else t.args[0])
        if t.op == "mu" and t in self.it.mu and found_in(self.it.mu[t][1]):
            return self.case["look"]
        if t.op == "sub" and any(k.op == "upd" for k in walk(t.args[0])):
            return self.value(t.args[0])
        if t.op == "sub" and t.args[1].op in ("phi", "and", "call", "not", "cmp") and self.truth(t.args[1]) is not None:
            return self.value(t.args[0])
        if t.op in ("sub", "attr", "mu", "sym", "lost"):
            return self.case["x"]
        if t.op == "call" and t.args[0] == "numpy.where" and len(t.args) == 4:
            c = self.truth(t.args[1])
            if c is not None:
                return self.value(t.args[2] if c else t.args[3])
        raise Unknown("value %s" % show(t, 3))

    def truth(self, c):
        """True, False or None if it does not depend on the row."""
        if c.op in ("not", "truth") or c.op == "un" and c.args[0] in ("Invert", "Not"):
            r = self.truth(c.args[-1])
            return r if r is None or c.op == "truth" else not r
        if c.op in ("and", "or"):
            rs = [self.truth(k) for k in c.args]
            if (c.op == "or") in rs:
                return c.op == "or"
            return None if None in rs else c.op == "and"
        if c.op == "phi":
            g = self.truth(c.args[0])
            if g is not None:
                return self.truth(c.args[1] if g else c.args[2])
            x, y = self.truth(c.args[1]), self.truth(c.args[2])
            return x if x == y else None
        if c.op == "call" and c.args[0].rpartition(".")[2] in ("isfinite", "isnan"):
            v = self.value(c.args[1])
            return v not in ("nan", "inf") if c.args[0].endswith("isfinite") else v == "nan"
        if c.op == "cmp" and c.args[0] in ("==", "!="):
            for x, y in (c.args[1:], c.args[:0:-1]):
                if const(x) is None:
                    continue
                if y.op == "bin" and y.args[0] == "BitAnd" and const(x) in self.masks:
                    r = self.case[self.masks[const(x)]]
                else:
                    v = self.value(y)
                    r = v == const(x)
                return r if c.args[0] == "==" else not r
            return None
        if c.op == "cmp" and c.args[0] in ("is", "is not"):
            x, y = c.args[1:]
            if y.op == "const" and y.args[0] is None and record(x, 2) is not None:
                return self.case["table"] is (c.args[0] == "is not")
        return None


def found_in(t):
    return any(x.op == "apply" and x.args[0].op == "func" and str(x.args[0].args[0]).startswith(MODULE) for x in walk(t))


def flag_masks(p):
    out = {}
    for name, label in (("is_continuous_set", "continuous"), ("has_magic_missing_set", "magic")):
        it = Interp(p)
        v, st = it.call_entry(p.func("cyclic_boosting.flags." + name), State(it.root), None, prefix="")
        t = it.term(v, st)
        for x in walk(t):
            if x.op == "cmp" and x.args[0] == "==":
                for k in x.args[1:]:
                    if const(k) is not None:
                        out[const(k)] = label
    return out


KINDS = (("nan", "missing values"), ("inf", "infinite values"), (-9, "the value -9"), (-999, "the value -999"), ("x", "values"))


def missing(rep, who, it, st, events, p):
    masks = flag_masks(p)
    done = set()
    for e in events:
        if e.kind != "mutate" or e.data["how"] != "[]=" or not any("X" in str(r) for r in e.data["roots"]):
            continue
        v = it.term(e.data["value"], st)
        if not any(x.op == "mu" and x in it.mu and found_in(it.mu[x][1]) for x in walk(v)):
            continue
        for kind, label in KINDS:
            for magic in (False, True):
                for look in ("bin", "nan"):
                    for table in (True, False):
                        if not table and look == "nan":
                            continue
                        what = "%s: %s%s%s" % (who, label, " of features with magic missing values" if magic else "",
                                               "" if table and look == "bin" else ", not found" if table else ", no boundaries")
                        try:
                            got = {Row(it, masks, x=kind, magic=magic, look=look, table=table, continuous=c).value(numbers(v)) for c in (True, False)}
                        except Unknown as u:
                            rep.skipped(what, "no model (%s)" % u)
                            continue
                        none = not table or kind in ("nan", "inf") or magic and kind in (-9, -999) or look == "nan"
                        rep.ok(MISSING, what)
                        want = -1 if none else "bin"
                        if got != {want} and what not in done:
                            done.add(what)
                            bad = [g for g in got if g != want][0]
                            rep.add(MISSING, what, e.loc(), "the bin number is %s" % ("missing" if bad == -1 else bad))


def numbers(t):
    """The numbers before they are put into the smallest type."""
    while True:
        t = strip(t)
        if t.op != "phi":
            return t
        kids = {strip(k) for k in leaves(t)}
        if len(kids) != 1:
            return t
        t = kids.pop()


ORDER = ["int8", "int16", "int32", "int64"]


def dtype_of(t):
    return t.args[0].rpartition(".")[2] if t.op == "ext" else t.args[0] if t.op == "const" and isinstance(t.args[0], str) else None


def width(rep, who, events, it, st):
    seen = set()
    for e in events:
        if e.kind != "mutate" or e.data["how"] != "[]=":
            continue
        v = it.term(e.data["value"], st)
        for x in walk(v):
            if x.op != "phi" or x in seen or x.args[0].op != "cmp":
                continue
            seen.add(x)
            top = x.args[0].args[2]
            if top.op != "attr" or top.args[1] != "max" or not any(k.op == "call" and k.args[0].endswith("iinfo") for k in walk(top)):
                continue
            d = [dtype_of(k.args[1]) for k in walk(top) if k.op == "call" and k.args[0].endswith("iinfo")][0]
            b = x.args[1]
            if x.args[0].args[0] not in ("<", "<=") or b.op != "call" or b.args[0] != "cast" or d not in ORDER or dtype_of(b.args[2]) not in ORDER:
                continue
            what = "%s: numbers up to the maximum of %s" % (who, d)
            rep.ok(WIDTH, what)
            if ORDER.index(dtype_of(b.args[2])) < ORDER.index(d):
                rep.add(WIDTH, what, e.loc(), "bin numbers are put into %s" % dtype_of(b.args[2]))


def transformer(rep, p, cls):
    life = world.Life(p, cls)
    life.construct()
    life.it.no_inline = {p.func(MODULE + n).qualname for n in ("ge", "le")}
    life.run("fit", True)
    _, st, events = life.run("transform", True, prefix="new ")
    rep.functions |= life.it.inlined
    who = world.short(cls)
    if st is None:
        rep.skipped(who, "transform always raises")
        return
    sites(rep, who, life.it, st, events, p)
    rep.guard(who + ": missing values", missing, rep, who, life.it, st, events, p)
    width(rep, who, events, life.it, st)


def guarded(rep, what, fn, *args):
    def go():
        try:
            fn(*args)
        except (Unknown, TooLarge) as e:
            rep.skipped(what, "no model (%s)" % e)
    rep.guard(what, go)


def run(p, rep, tier):
    rep.rule(SEARCH, "a search by halving keeps the elements below its lower limit on one side and those above its upper limit on the other, and ends when both meet")
    rep.rule(EACH, "each value gets the result of its own search; a value is only accepted if it equals the boundary found within the tolerance")
    rep.rule(BETWEEN, "a value between two boundaries gets the interpolated value, one outside the value of the end")
    rep.rule(TABLE, "the boundaries searched, the results and the tolerance belong to the same feature; values beyond the last boundary fall into the last bin")
    rep.rule(MISSING, "missing, infinite and unknown values get the number of no bin, all others the bin found")
    rep.rule(WIDTH, "bin numbers are put into an integer type that can hold them")
    for name in ("le", "ge", "ge_lim"):
        guarded(rep, name, halving, rep, p, name)
    guarded(rep, "eq_multi", equality, rep, p)
    guarded(rep, "ge_multi", each, rep, p, "ge_multi", "ge", 3)
    guarded(rep, "le_interp_multi", each, rep, p, "le_interp_multi", "le_interp", 5)
    guarded(rep, "le_interp", interpolation, rep, p)
    for cls in world.transformers(p):
        rep.count("transformers")
        guarded(rep, world.short(cls), transformer, rep, p, cls)
    rep.floor(SEARCH, 10)
    rep.floor(EACH, 5)
    rep.floor(BETWEEN, 5)
    rep.floor(TABLE, 8)
    rep.floor(MISSING, 20)
    rep.floor(WIDTH, 2)
