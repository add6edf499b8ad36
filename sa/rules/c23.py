"""C23: the factor applied to a row is the one learned for the bin the row falls in."""
from .. import world
from ..atoms import Conditions
from ..framework import parallel
from ..interp import Interp
from ..pointwise import is_mask
from ..state import State
from ..terms import T, show, walk
from .c11 import sentence

WHICH, WHEN = "entry-of-the-bin", "bins-that-have-an-entry"
NUMBER, STEPS, CENTRES = "number-of-bins", "enumeration-of-bins", "bin-numbers-of-entries"
SAME = ("cast", "numpy.asarray", "numpy.array", "numpy.floor", "numpy.rint", "numpy.round", "numpy.around", "numpy.trunc", "meth.astype",
        "meth.round", "numpy.ascontiguousarray", "meth.copy", "numpy.copy", "numpy.int64", "meth.to_numpy", "numpy.asanyarray")
PRODUCT = ("numpy.prod", "numpy.product", "meth.prod")
REST = "rows-without-bin"
UTILS = "cyclic_boosting.utils"


def plain(t, memo=None):
    """The value without what makes no difference for whole numbers and without the selection of rows."""
    memo = {} if memo is None else memo
    r = memo.get(t)
    if r is None:
        r = memo[t] = _plain(t, memo)
    return r


def _plain(t, memo):
    op, a = t.op, t.args

    def go(x):
        return plain(x, memo)
    if op == "call" and a[0] in SAME or op == "cast":
        return go(a[1] if op == "call" else a[0])
    if op == "call" and a[0] in ("numpy.all", "meth.all") and any(k.op == "kw" and k.args[0] == "axis" for k in a[1:]):
        return go(a[1])
    if op == "call" and a[0] == "numpy.logical_and":
        return T("and", go(a[1]), go(a[2]))
    if op == "sub":
        i = a[1]
        if is_mask(i):
            return go(a[0])
        if i.op == "tuple" and i.args and i.args[0].op == "const" and i.args[0].args[0] is None:
            return go(a[0])
        if i.op == "const" and i.args[0] == 0 and a[0].op == "attr" and a[0].args[1] == "shape":
            return T("len", go(a[0].args[0]))
        return T("sub", go(a[0]), i)
    if op == "attr" and a[1] == "size":
        return T("len", go(a[0]))
    if op == "upd" and is_mask(a[0]) and a[0] is a[1]:
        # entries that hold are looked at once more
        return T("and", go(a[0]), go(a[2]))
    if op == "mu":
        return t
    if any(isinstance(k, T) for k in a):
        return T(op, *[go(k) if isinstance(k, T) else k for k in a])
    return t


def flat(t):
    if t.op == "and":
        return T("and", *[flat(k) for k in t.args])
    if t.op in ("bin",) and t.args[0] == "BitAnd":
        return T("and", flat(t.args[1]), flat(t.args[2]))
    return t


def place(t):
    """(mask, entries, index) of the rows that get an entry of an array, or None."""
    while t.op in ("cast",) or t.op == "call" and t.args[0] in SAME:
        t = t.args[1] if t.op == "call" else t.args[0]
    if t.op != "upd" or not is_mask(t.args[1]):
        return None
    return t.args[1], t.args[2]


def usable(rep, nm, where, mask, x, n):
    """The mask holds exactly for finite numbers from zero to below n."""
    cd = Conditions([x])
    dd = cd.dd
    want = dd.conj(cd.form(T("call", "numpy.isfinite", x)), dd.conj(cd.compare("<=", T("const", 0), x), cd.compare("<", x, n)))
    got = flat(plain(mask))
    have = cd.form(got)
    if got.op == "call" and got.args[0] in ("numpy.any", "meth.any") and cd.differ(cd.form(flat(got.args[1])), want) is None:
        rep.add(WHEN, nm, where, "rows with one usable bin number of several get the entry of a bin")
        return
    if len(cd.names) != 3 and not any(k[0] in ("<=", "truth") and any(v is x for v in k[1:]) for k in cd.names[3:]):
        rep.skipped(nm, "the test of bin numbers is not understood")
        return
    w = cd.differ(have, want)
    if w is None:
        rep.ok(WHEN, nm)
    else:
        rep.add(WHEN, nm, where, "rows get or do not get the entry of their bin against its existence when %s" % sentence(w))


def step_slice(t):
    """(slice, argument) of the part of the steps that is used."""
    if t.op == "phi":
        t = next((k for k in t.args[1:] if k.op != "sym"), t)
    if t.op == "sub":
        b = t.args[0]
        if b.op == "phi":
            b = next((k for k in b.args[1:] if k.op == "apply"), b)
        if b.op == "apply" and b.args[0].op == "func" and b.args[0].args[0].endswith(".bin_steps"):
            return t.args[1], b.args[1]
    return None


def dotted(t):
    """(numbers, steps)"""
    if t.op == "call" and t.args[0] in ("numpy.dot", "numpy.matmul", "meth.dot") and len(t.args) >= 3:
        return t.args[1], t.args[2]
    if t.op == "bin" and t.args[0] == "MatMult":
        return t.args[1], t.args[2]
    return None


def after_first(s):
    return s.op == "slice" and [k.args[0] if k.op == "const" else k for k in s.args[:1]] == [1] and all(
        k.op == "const" and k.args[0] is None for k in s.args[1:])


def more_by_one(rep, nm, where, n):
    """The number of bins is the largest bin number and one."""
    n = plain(n)
    if n.op == "phi":
        for k in n.args[1:]:
            more_by_one(rep, nm, where, k)
        return
    if n.op == "call" and n.args[0] in ("numpy.max", "numpy.amax", "numpy.nanmax"):
        rep.add(NUMBER, nm, where, "the number of bins is the largest bin number itself: its last bin is lost")
    elif n.op == "bin" and n.args[0] in ("Add", "Sub") and any(k.op == "call" and k.args[0] in ("numpy.max", "numpy.amax", "numpy.nanmax")
                                                                for k in n.args[1:]):
        c = [k.args[0] for k in n.args[1:] if k.op == "const"]
        if n.args[0] == "Add" and c == [1]:
            rep.ok(NUMBER, nm)
        else:
            rep.add(NUMBER, nm, where, "the number of bins is %s, not the largest bin number and one" % show(n, 3))


def smoother(rep, p, cls):
    nm = world.short(cls)
    life = world.Life(p, cls)
    life.it.no_inline = set(life.it.no_inline) | {UTILS + ".bin_steps"}
    life.construct()
    if not life.has("fit") or not life.has("predict") or life.run("fit")[1] is None:
        return
    v, s, evs = life.run("predict", prefix="new ")
    it = life.it
    fields = it.fields(life.obj.oid, life.st)
    if s is None or "smoothed_y_" not in fields:
        return
    fi = it.method(cls, "predict")
    where = "%s:%d in %s" % (fi.module.relpath, fi.node.lineno, fi.qualname)
    kept = it.term(fields["smoothed_y_"], life.st)
    X = T("sym", "new " + fi.all_params[1])
    got = place(it.term(v, s))
    if got is None or got[1].op != "sub" or got[1].args[0] is not kept:
        rep.skipped(nm, "predictions are not looked up in the learned values")
        return
    mask, index = got[0], got[1].args[1]
    d = dotted(index)
    if d is None:
        x = plain(index)
        first = T("sub", X, T("tuple", T("slice", *[T("const", None)] * 3), T("const", 0)))
        if x is first or x is X:
            rep.ok(WHICH, nm)
        elif any(k is X for k in walk(x)):
            rep.add(WHICH, nm, where, "the entry %s is looked up for bin %s" % (show(x, 4), show(first, 4)))
            return
        usable(rep, nm, where, mask, x, T("len", plain(kept)))
        return
    x, part = plain(d[0]), step_slice(d[1])
    if x is not X or part is None or "n_bins_" not in fields:
        rep.skipped(nm, "the numbering of bins is not understood")
        return
    n = it.term(fields["n_bins_"], life.st)
    if after_first(part[0]):
        rep.ok(WHICH, nm)
    else:
        rep.add(WHICH, nm, where, "bins are numbered with the steps %s, in training with all steps but the first" % show(part[0], 3))
    usable(rep, nm, where, mask, x, plain(n))
    more_by_one(rep, nm, where, n)
    rep.functions |= it.inlined


def numbering(rep, p):
    """Training."""
    m = p.modules.get(UTILS)
    fi = m.functions.get("multidim_binnos_to_lexicographic_binnos") if m else None
    if fi is None:
        rep.skipped("training", "the numbering of bins was not found")
        return
    nm, where = "training", "%s:%d in %s" % (fi.module.relpath, fi.node.lineno, fi.qualname)
    it = Interp(p)
    it.no_inline = set(it.no_inline) | {UTILS + ".bin_steps"}
    v, s = it.call_entry(fi, State(it.root), None)
    items = it.seq_items(v, s)
    if not items or len(items) != 2:
        rep.skipped(nm, "the numbering of bins returns something else")
        return
    t, n = it.term(items[0], s), it.term(items[1], s)
    got = place(t)
    d = dotted(plain_outer(got[1])) if got else None
    part = step_slice(d[1]) if d else None
    if part is None:
        rep.skipped(nm, "the numbering of bins is not understood")
        return
    if after_first(part[0]):
        rep.ok(WHICH, nm)
    else:
        rep.add(WHICH, nm, where, "bins are numbered with the steps %s, in predictions with all steps but the first" % show(part[0], 3))
    usable(rep, nm, where, got[0], plain(d[0]), plain(n))
    rest = plain_outer(t).args[0]
    while rest.op == "cast" or rest.op == "call" and rest.args[0] in SAME + ("numpy.repeat", "numpy.full"):
        rest = rest.args[2 if rest.op == "call" and rest.args[0] == "numpy.full" else 1 if rest.op == "call" else 0]
    if rest.op == "filled":
        rest = rest.args[-1]
    if any(k.op == "call" and k.args[0] in PRODUCT for k in walk(rest)):
        if rest.op == "call" and rest.args[0] in PRODUCT and plain(rest.args[1]) is plain(n):
            rep.ok(REST, nm)
        else:
            rep.add(REST, nm, where, "the other rows get the bin %s, not the one behind all bins" % show(rest, 4))
    more_by_one(rep, nm, where, n)
    rep.functions |= it.inlined


def plain_outer(t):
    while t.op == "cast" or t.op == "call" and t.args[0] in SAME:
        t = t.args[1] if t.op == "call" else t.args[0]
    return t


def const(t, v):
    return isinstance(t, T) and t.op == "const" and t.args[0] == v and not isinstance(t.args[0], bool)


def ranged(t):
    """Arguments (start, stop, step) of the range a loop variable runs over."""
    if t.op != "elem" or t.args[0].op != "call" or t.args[0].args[0] != "builtins.range":
        return None
    r = list(t.args[0].args[1:])
    return [T("const", 0), r[0], T("const", 1)] if len(r) == 1 else r + [T("const", 1)] if len(r) == 2 else r


def steps(rep, p):
    m = p.modules.get(UTILS)
    fi = m.functions.get("bin_steps") if m else None
    if fi is None:
        rep.skipped("steps", "the steps of bins were not found")
        return
    where = "%s:%d in %s" % (fi.module.relpath, fi.node.lineno, fi.qualname)
    it = Interp(p)
    v, s = it.call_entry(fi, State(it.root), None)
    t = it.term(v, s)
    n = T("sym", fi.all_params[0])
    back = it.mu[t][1] if t.op == "mu" and t in it.mu else None
    i = back.args[1] if back is not None and back.op == "upd" and back.args[0] is t else None
    total = back.args[2] if i is not None else None
    r = ranged(i) if i is not None else None
    if r is None or total.op != "mu" or total not in it.mu:
        rep.skipped("steps", "the steps of bins are not understood")
        return
    init, nxt = it.mu[total]
    if nxt.op != "bin" or nxt.args[0] != "Mult":
        rep.skipped("steps", "the steps of bins are not understood")
        return
    other = [k for k in nxt.args[1:] if k is not total]
    prior = {T("bin", "Sub", i, T("const", 1)), T("bin", "Add", i, T("const", -1)), T("bin", "Add", T("const", -1), i)}
    if len(other) != 1 or other[0].op != "sub" or other[0].args[0] is not n:
        rep.skipped("steps", "the steps of bins are not understood")
        return
    dim = (T("sub", T("attr", n, "shape"), T("const", 0)), T("len", n), T("attr", n, "size"))
    wrong = None
    if not const(init, 1):
        wrong = "the last step is %s, not one" % show(init, 2)
    elif other[0].args[1] not in prior:
        wrong = "the step is multiplied by the number of bins at %s instead of the one before" % show(other[0].args[1], 3)
    elif not (r[0] in dim and const(r[1], -1) and const(r[2], -1)):
        wrong = "the steps are made for %s, not from the last to the first" % show(i, 4)
    if wrong:
        rep.add(STEPS, "steps", where, wrong)
    else:
        rep.ok(STEPS, "steps")


def centres(rep, p):
    m = p.modules.get(UTILS)
    fi = m.functions.get("arange_multi") if m else None
    if fi is None:
        rep.skipped("entries", "the bin numbers of entries were not found")
        return
    where = "%s:%d in %s" % (fi.module.relpath, fi.node.lineno, fi.qualname)
    it = Interp(p)
    it.no_inline = set(it.no_inline) | {UTILS + ".bin_steps"}
    v, s = it.call_entry(fi, State(it.root), None)
    t = it.term(v, s)
    seen = set()
    while t.op == "mu" and t in it.mu and t not in seen:
        seen.add(t)
        t = it.mu[t][1]
    if t.op != "upd" or t.args[1].op != "tuple" or len(t.args[1].args) != 2:
        rep.skipped("entries", "the bin numbers of entries are not understood")
        return
    pos, m_ = t.args[1].args
    no = t.args[2]
    stop = T("sym", fi.all_params[0])
    if pos.op != "bin" or pos.args[0] != "Add" or no.op != "mu" or no not in it.mu or ranged(m_) is None:
        rep.skipped("entries", "the bin numbers of entries are not understood")
        return
    rs = [ranged(k) for k in pos.args[1:]]
    if None in rs:
        rep.skipped("entries", "the bin numbers of entries are not understood")
        return
    outer = [r for r in rs if not const(r[2], 1)]
    inner = [r for r in rs if const(r[2], 1)]
    if len(outer) != 1 or len(inner) != 1:
        rep.skipped("entries", "the bin numbers of entries are not understood")
        return
    step = outer[0][2]
    wrong = None
    if step.op != "sub" or step.args[0].op != "apply":
        rep.skipped("entries", "the bin numbers of entries are not understood")
        return
    after = {T("bin", "Add", m_, T("const", 1)), T("bin", "Add", T("const", 1), m_)}
    if step.args[1] not in after:
        wrong = "the entries of a bin number are %s apart, in training step %s" % (show(step.args[1], 3), "one further")
    elif inner[0][1] is not step:
        wrong = "a bin number is repeated %s times, not as often as its step" % show(inner[0][1], 3)
    else:
        cd = Conditions([no])
        init, nxt = it.mu[no]
        more = {T("bin", "Add", no, T("const", 1)), T("bin", "Add", T("const", 1), no)}
        n = T("sub", stop, m_)
        if not const(init, 0):
            wrong = "bin numbers begin with %s" % show(init, 2)
        elif nxt.op == "phi" and {x for x in nxt.args[1:] if not const(x, 0)} <= more and any(const(x, 0) for x in nxt.args[1:]):
            c = cd.form(nxt.args[0] if const(nxt.args[1], 0) else T("not", nxt.args[0]))
            w = cd.differ(c, cd.compare("<=", n, T("bin", "Add", no, T("const", 1))))
            if w is not None:
                wrong = "bin numbers begin again at the wrong place when %s" % sentence(w)
        else:
            rep.skipped("entries", "the bin numbers of entries are not understood")
            return
    if wrong:
        rep.add(CENTRES, "entries", where, wrong)
    else:
        rep.ok(CENTRES, "entries")


def run(p, rep, tier):
    rep.rule(WHICH, "a prediction looked up in learned values uses the entry with the number of the row's bin, numbered as in training")
    rep.rule(WHEN, "exactly the rows whose bin numbers are finite, not negative and below the number of bins get the entry of a bin")
    rep.rule(REST, "rows without a usable bin number share the bin behind all others")
    rep.rule(NUMBER, "the number of bins is the largest bin number and one")
    rep.rule(STEPS, "the step of a column is the product of the numbers of bins of the columns behind it")
    rep.rule(CENTRES, "the bin numbers given to smoothers enumerate the bins in the same order")
    parallel(rep, p, world.smoothers(p), smoother, world.short)
    rep.guard("training", numbering, rep, p)
    rep.guard("steps", steps, rep, p)
    rep.guard("entries", centres, rep, p)
    rep.floor(WHICH, 8)
    rep.floor(WHEN, 8)
