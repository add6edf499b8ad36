"""C11: training stops exactly when a stop criterion says so."""
import ast

from .. import world
from ..atoms import Conditions, absolute, is_num, offset
from ..framework import call_path, parallel
from ..build import mk_is, mk_not
from ..terms import NONE, T, show, walk

STOP = "stop-condition"
COUNT = "iteration-count"
FLAGS = "reported-criteria"
CHANGE = "measured-change"
DIVERGE = "divergence-bounded"
OPTIONS = ("maximal_iterations", "minimal_factor_change", "minimal_loss_change", "hierarchical_feature_groups",
           "training_iterations_hierarchical_features")


def bounds_training(life, ev):
    top = life.params.get("maximal_iterations")
    if ev.kind != "loopcond" or top is None:
        return False
    return mentions(ev.data["cond"], life.it.term(top, life.st))


def mentions(t, x):
    return any(k is x for k in walk(t))


def leaving(life, evs):
    """Loops without a condition that are left by one break: (event, condition to go on)."""
    top = life.it.term(life.params["maximal_iterations"], life.st) if "maximal_iterations" in life.params else None
    out = {}
    for ev in evs:
        if ev.kind == "branch" and isinstance(ev.node, ast.If) and top is not None and mentions(ev.data["cond"], top):
            for body, cond in ((ev.node.body, mk_not(ev.data["cond"])), (ev.node.orelse, ev.data["cond"])):
                if body and isinstance(body[-1], ast.Break):
                    out[id(ev.node)] = (ev, cond)
    return list(out.values())


class Loop(object):
    """The training loop of one estimator, with its variables found by their use."""

    def __init__(self, life, cond, st):
        self.life, self.it, self.cond = life, life.it, cond
        fields = life.it.fields(life.obj.oid, st)
        self.opt = {n: life.it.term(fields[n], st) for n in OPTIONS if n in fields}
        self.mus = [t for t in walk(self.cond) if t.op == "mu"]
        self.count = self.other_side("maximal_iterations")
        self.delta = self.other_side("minimal_factor_change")
        self.change = self.other_side("minimal_loss_change")

    def other_side(self, option):
        """The loop variable compared with an option."""
        o = self.opt.get(option)
        for t in walk(self.cond):
            if t.op == "cmp" and o is not None:
                a, b = t.args[1:3]
                for x, y in ((a, b), (b, a)):
                    if any(k is o for k in walk(x)):
                        for k in walk(y):
                            if k.op == "mu" and k in self.mus:
                                return k
        return None

    def back(self, mu):
        return self.it.mu[mu] if mu in self.it.mu else (None, None)


def specification(c, loop, flags=None):
    """Continue unless a criterion is met outside of the hierarchical iterations; go on while diverging."""
    dd, o, i = c.dd, loop.opt, loop.count
    reached = c.compare("<=", o["maximal_iterations"], i)
    steady = c.compare("<=", loop.delta, o["minimal_factor_change"])
    level = c.compare("<=", T("call", "numpy.abs", loop.change), o["minimal_loss_change"])
    crits = (reached, steady, level)
    stop = dd.disj(dd.disj(reached, steady), level)
    if "hierarchical_feature_groups" in o:
        some = dd.neg(c.form(mk_is(o["hierarchical_feature_groups"], NONE)))
        early = c.compare("<=", i, o["training_iterations_hierarchical_features"])
        stop = dd.conj(stop, dd.neg(dd.conj(some, early)))
    return crits, stop


def sentence(w):
    return ", ".join("%s%s" % ("" if v else "not ", name(k)) for k, v in w)


def name(k):
    if k[0] == "<=":
        return "%s%s <= %s" % (show(k[1], 1)[:40], " + %s" % k[2] if k[2] else "", show(k[3], 1)[:40])
    return " ".join(x if isinstance(x, str) else show(x, 1)[:40] for x in k)


def check(rep, p, cls):
    nm = world.short(cls)
    life = world.Life(p, cls)
    life.construct()
    v, s, evs = life.run("fit", keep=False)
    loops = [(ev, ev.data["cond"]) for ev in evs if bounds_training(life, ev)]
    if not loops:
        loops = leaving(life, evs)
        if len(loops) > 1:
            rep.skipped(nm, "the training loop is left in several places")
            return
    if not loops and s is None:
        rep.skipped(nm, "training never comes to an end without raising")
        return
    if not loops:
        if any(ev.kind == "iter" and any(k.op == "sym" and "maximal_iterations" in str(k.args[0]) for k in walk(ev.data["source"]))
               for ev in evs if isinstance(ev.data.get("source"), T)):
            rep.skipped(nm, "the training loop counts over a range")
            return
        rep.add(STOP, nm, "%s fit" % nm, "no loop of the training looks at maximal_iterations")
        return
    for ev, cond in loops:
        check_loop(rep, nm, life, ev, cond, evs, s)
    rep.functions |= life.it.inlined


def check_loop(rep, nm, life, ev, cond, evs, s):
    it = life.it
    loop = Loop(life, cond, life.st)
    where, path = ev.where(), call_path(ev)
    missing = [n for n, x in (("maximal_iterations", loop.count), ("minimal_factor_change", loop.delta),
                              ("minimal_loss_change", loop.change)) if x is None]
    if missing:
        rep.add(STOP, "%s %s" % (nm, "/".join(missing)), where, "training does not compare its progress with %s" % ", ".join(missing), path)
        return

    # the counter
    init, back = loop.back(loop.count)
    x, c = offset(back) if back is not None else (None, None)
    if init is not None and is_num(init) and init.args[0] == 0 and x is loop.count and c == 1:
        rep.ok(COUNT, nm)
    else:
        rep.add(COUNT, nm, where, "the compared counter starts at %s and becomes %s" % (show(init, 3), show(back, 3)), path)

    # the condition
    cd = Conditions([loop.count])
    crits, stop = specification(cd, loop)
    f = cd.form(loop.cond)
    roles = {loop.count, loop.delta, loop.change}
    div = [m for m in loop.mus if m not in roles]
    go = cd.dd.neg(stop)
    known = set(cd.keys)
    for m in div:
        if ("truth", m) in known:
            go = cd.dd.disj(go, cd.atom(("truth", m)))
    w = cd.differ(f, go)
    if w is None:
        rep.ok(STOP, nm)
    else:
        rep.add(STOP, nm, where, "training goes on or stops against its criteria when %s" % sentence(w), path)

    # what is kept as the reason
    fields = it.fields(life.obj.oid, s) if s is not None else {}
    if "stop_criteria_" in fields:
        t = it.term(fields["stop_criteria_"], s)
        if t.op in ("tuple", "list") and len(t.args) == 3:
            for k, (a, want, what) in enumerate(zip(t.args, crits, ("iterations", "factor change", "loss change"))):
                w = cd.differ(cd.form(a), want)
                if w is None:
                    rep.ok(FLAGS, "%s %s" % (nm, what))
                else:
                    rep.add(FLAGS, "%s %s" % (nm, what), where, "stop_criteria_[%d] differs from its criterion when %s" % (k, sentence(w)), path)
        else:
            rep.skipped("%s stop_criteria_" % nm, "not a triple")

    check_change(rep, nm, loop, where, path)
    check_diverging(rep, nm, loop, div, evs, where, path)


def leaves(t):
    if t.op == "phi":
        return leaves(t.args[1]) + leaves(t.args[2])
    return [t]


def check_change(rep, nm, loop, where, path):
    """The loss change compares the loss before with the loss after, relative to the loss before."""
    for m, what in ((loop.delta, "factor change"), (loop.change, "loss change")):
        init, back = loop.back(m)
        if init is not None and is_num(init) and init.args[0] >= 1:
            rep.ok(CHANGE, "%s %s starts high" % (nm, what))
        else:
            rep.add(CHANGE, "%s %s" % (nm, what), where, "the %s before the first iteration is %s, which can stop training" % (what, show(init, 2)), path)
    init, back = loop.back(loop.change)
    if back is None:
        rep.skipped("%s loss change" % nm, "not updated in the loop")
        return
    for leaf in leaves(back):
        pair = difference(loop, leaf)
        if pair is None:
            rep.add(CHANGE, "%s loss change" % nm, where, "the loss change is %s, not the change from the loss before to the loss after" % show(leaf, 4), path)
            continue
        old, new = pair
        if loop.back(old)[1] is not new:
            rep.add(CHANGE, "%s loss change" % nm, where, "the loss change uses %s, which is not the loss after the iteration" % show(new, 3), path)
        elif not fresh(loop, new):
            rep.add(CHANGE, "%s loss" % nm, where, "the loss after an iteration is not that of the factors learned in it", path)
        else:
            rep.ok(CHANGE, "%s loss change" % nm)
    init, back = loop.back(loop.delta)
    if back is None:
        return
    diffs, above = to_abs(back, loop.it.mu)
    losses = {old for old in [difference(loop, k)[0] for k in leaves(loop.back(loop.change)[1]) if difference(loop, k)]}
    if not diffs:
        rep.add(CHANGE, "%s factor change" % nm, where, "the factor change is no absolute difference: %s" % show(back, 4), path)
    elif any(t in losses for t in walk(back)):
        rep.add(CHANGE, "%s factor change" % nm, where, "the factor change depends on the loss", path)
    elif above & {"min", "max", "median", "prod", "nanmin", "nanmax", "amin", "amax"} or "sum" in above and "Div" not in above:
        rep.add(CHANGE, "%s factor change" % nm, where, "the factor change is not the mean of the absolute differences but %s" % show(back, 3), path)
    else:
        rep.ok(CHANGE, "%s factor change" % nm)


def fresh(loop, new):
    """The value rests on what the loop over the features left in this iteration."""
    for k in walk(new):
        if k.op == "mu" and k.args[0] != loop.count.args[0] and k in loop.it.mu:
            if any(j.op == "mu" and j.args[0] == loop.count.args[0] for x in loop.it.mu[k] if x is not None for j in walk(x)):
                return True
    return False


def to_abs(t, mu):
    """Whether absolute differences are reached, and the operations above them."""
    todo, seen, above, hit = [t], set(), set(), False
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if absolute(x) is not None:
            hit = hit or any(k.op == "bin" and k.args[0] == "Sub" for k in walk(absolute(x)))
            continue
        if x.op == "over":
            continue
        if x.op == "call":
            above.add(str(x.args[0]).split(".")[-1])
        if x.op == "bin":
            above.add(x.args[0])
        todo += x.kids()
        if x.op == "mu" and x.args[1][0] == "c":
            # a list filled in a loop
            todo += [k for k in mu.get(x, ()) if k is not None]
    return hit, above


def difference(loop, t):
    """(old loss variable, new loss) of a loss change, relative or not, either sign."""
    rel = None
    if t.op == "bin" and t.args[0] == "Div":
        t, rel = t.args[1], t.args[2]
    if t.op == "bin" and t.args[0] == "Sub":
        for a, b in ((t.args[1], t.args[2]), (t.args[2], t.args[1])):
            if a.op == "mu" and (rel is None or rel is a):
                return a, b
            # 1 - new / old
            if is_num(a) and a.args[0] == 1 and b.op == "bin" and b.args[0] == "Div" and b.args[2].op == "mu" and rel is None:
                return b.args[2], b.args[1]
    return None


def check_diverging(rep, nm, loop, div, evs, where, path):
    """Going on in spite of a met criterion is counted, and the count ends in an error."""
    for m in div:
        init, back = loop.back(m)
        if init is None or not (init.op == "const" and not init.args[0]):
            rep.add(DIVERGE, "%s start" % nm, where, "the reason to go on is set before the first iteration", path)
            continue
        ends = []
        for ev in evs:
            if ev.kind != "raise" or ev.data.get("exc") != "ConvergenceError":
                continue
            fs = list(ev.facts.items())
            if not any(v and t is back or v and back.op == "cmp" and t.op == "cmp" and t.args == back.args for t, v in fs):
                continue
            for t, v in fs:
                if v and t.op == "cmp" and t.args[0] in ("<=", "<", "=="):
                    for a, b in ((t.args[1], t.args[2]), (t.args[2], t.args[1])):
                        x, c = offset(b)
                        if is_num(a) and x.op == "mu" and c == 1 and (t.args[0] == "==" or b is t.args[2]):
                            ends.append((x, a.args[0], ev, t))
        if not ends:
            rep.add(DIVERGE, "%s end" % nm, where, "no error ends a training that keeps diverging", path)
            continue
        x, top, ev, bound = ends[0]
        more = [t for t, v in ev.facts.items() if t is not bound and t is not back and not (v and t is loop.cond) and not part(t, loop)
                and any(k.op == "mu" and k.args[0] == m.args[0] for k in walk(t))]
        if more:
            rep.add(DIVERGE, "%s condition" % nm, ev.where(), "the error that ends a diverging training also needs %s" % show(more[0], 3), call_path(ev))
            continue
        i, b = loop.back(x)
        ok = i is not None and is_num(i) and i.args[0] == 0 and b is not None and all(
            k is x or offset(k) == (x, 1) for k in leaves(b)) and any(offset(k) == (x, 1) for k in leaves(b))
        if ok and b.op == "phi":
            cd = Conditions()
            inc = offset(b.args[1]) == (x, 1)
            ok = cd.differ(cd.form(b.args[0]), cd.form(back) if inc else cd.dd.neg(cd.form(back))) is None
        elif ok:
            ok = offset(b) == (x, 1)
        if ok:
            rep.ok(DIVERGE, "%s ends after %s" % (nm, top))
        else:
            rep.add(DIVERGE, "%s count" % nm, ev.where(), "the diverging iterations are counted as %s from %s" % (show(b, 3), show(i, 2)), call_path(ev))


def part(t, loop):
    """A part of the loop condition."""
    return any(k is t for k in walk(loop.cond))


def run(p, rep, tier):
    rep.rule(STOP, "the condition of the training loop, as a boolean function of its comparisons, equals: continue unless (count >= "
                   "maximal_iterations or factor change <= minimal_factor_change or |loss change| <= minimal_loss_change) outside the "
                   "hierarchical iterations, or while diverging")
    rep.rule(COUNT, "the counter starts at 0 and grows by one with every iteration")
    rep.rule(FLAGS, "stop_criteria_ holds the three criteria in order")
    rep.rule(CHANGE, "the changes start high; the loss change is that from the loss before to the loss after the iteration")
    rep.rule(DIVERGE, "each iteration done because of divergence is counted, and a bound on the count raises ConvergenceError")
    parallel(rep, p, world.estimators(p), check, world.short)
    rep.floor(STOP, 10)
    rep.floor(COUNT, 10)
    rep.floor(DIVERGE, 10)
