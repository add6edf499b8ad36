"""C21: training keeps its running prediction in step with the factors it learns."""
from .. import world
from ..framework import parallel
from ..state import Arr
from ..linear import Linear, ZERO, plus
from ..terms import T, show, walk

STEP, REST = "prediction-in-step-with-factors", "current-factors-are-what-is-learned"
FINAL, BACK = "predictions-use-what-is-learned", "returned-prediction-is-current"
START = "training-starts-where-predictions-start"
LEARNED, CURRENT, FITTED = "fitted_aggregated", "factors_link", "is_fitted"
SMOOTHED, DIVERGING = "smoothed_y_", "is_diverging"
COLUMNS = ("factors", "exponents")


def loops(it):
    """{loop: {field name or ("frame",): loop variable}} of loops changing both the running prediction and what is learned."""
    by = {}
    for m in it.mu:
        if m.op != "mu":
            continue
        k, key = m.args
        d = by.setdefault(k, {})
        if isinstance(key, tuple) and key[0] == "f" and key[2] in (LEARNED, CURRENT, FITTED):
            d[key[2]] = m
        elif isinstance(key, tuple) and key[0] == "c" and is_frame(it.mu, m):
            d["frame"] = m
    role, more = {m: w for d in by.values() for w, m in d.items()}, True
    while more:
        more = False
        for m in it.mu:
            # the array held by a field, changed in place
            w = role.get(it.mu[m][0]) if m.op == "mu" and m.args[1][0] == "c" and m not in role else None
            if w in (LEARNED, CURRENT) and w not in by[m.args[0]]:
                by[m.args[0]][w], role[m], more = m, w, True
    return {k: d for k, d in by.items() if LEARNED in d and "frame" in d}


def blurred(t):
    """The value depends on whether two arrays are the same one."""
    return t is not None and any(x.op == "any" and str(x.args[0]).startswith("alias") for x in walk(t))


def is_frame(mu, m, seen=None):
    seen = set() if seen is None else seen
    while m.op == "mu" and m in mu and m not in seen:
        seen.add(m)
        m = mu[m][0]
    while m.op == "upd":
        m = m.args[0]
    return m.op == "call" and m.args[0] == "pandas.DataFrame"


def begins(it, old=()):
    """What the tables of predictions that loops add to start with."""
    out = set()
    for m in it.mu:
        if m in old or m.op != "mu" or m.args[1][0] != "c" or not is_frame(it.mu, m):
            continue
        seen = set()
        while m.op == "mu" and m in it.mu and m not in seen:
            seen.add(m)
            m = it.mu[m][0]
        out.add(m)
    return out


def start(rep, p, cls):
    """The running prediction begins with the value that predicting the same rows begins with."""
    nm = world.short(cls)
    life = world.Life(p, cls)
    life.construct()
    if life.run("fit")[1] is None:
        return
    here, old = begins(life.it), set(life.it.mu)
    _, s, evs = life.run("predict")
    there = begins(life.it, old)
    if s is None or len(here) != 1 or len(there) != 1:
        rep.skipped(nm, "no single beginning of the running prediction")
        return
    a, b = here.pop(), there.pop()
    if a is b:
        rep.ok(START, nm)
        return
    for x in difference(a, b):
        rep.add(START, nm, "%s fit" % nm, "training begins with %s, predicting the same rows with %s" % (show(x[0], 4), show(x[1], 4)))


def difference(a, b):
    """The first places where two values differ."""
    if a.op == b.op and len(a.args) == len(b.args):
        d = [(x, y) for x, y in zip(a.args, b.args) if x is not y and (isinstance(x, T) or isinstance(y, T) or x != y)]
        if len(d) == 1 and isinstance(d[0][0], T) and isinstance(d[0][1], T):
            return difference(*d[0])
    return [(a, b)]


def check(rep, p, cls):
    nm = world.short(cls)
    life = world.Life(p, cls)
    life.construct()
    it = life.it
    if "aggregate" not in life.params and cls.lookup("__init__") is None:
        return
    entry = "fit_transform" if cls.lookup("fit_transform") else "fit"
    v, s, evs = life.run(entry)
    fi = it.method(cls, entry)
    where = "%s:%d" % (fi.module.relpath, fi.node.lineno)
    shared(rep, nm, evs)
    live, seen, frames = set(), set(), {}
    for m in it.mu:
        if m.op == "mu" and m.args[1][0] == "c":
            frames.setdefault(m.args[0], []).append(m)
    for t in [it.term(v, s)] + [it.term(x, s) for x in it.fields(life.obj.oid, s).values()]:
        live |= {x.args[0] for x in walk(t, it.mu, seen) if x.op == "mu"}
    found = {k: d for k, d in loops(it).items() if k in live}
    if not found:
        rep.skipped(nm, "no loop that changes predictions and factors")
        return
    for m in it.mu:
        k = m.args[0] if m.op == "mu" else None
        if k in live and k not in found and m.args[1][0] == "c" and any(is_frame(it.mu, x) for x in frames.get(k, ())) and blurred(it.mu[m][1]):
            rep.skipped(nm, "arrays of different features cannot be told apart")
            return
    var = {}
    for k, d in found.items():
        for what, m in d.items():
            var[m] = (what, k)
    for m in it.mu:
        if m.op == "mu" and m.args[1][0] == "f" and m.args[1][2] in (CURRENT, FITTED):
            var.setdefault(m, (m.args[1][2], m.args[0]))
    agg = life.params.get("aggregate")
    agg = it.term(agg, life.st) if agg is not None else None
    if agg is None:
        g = it.fields(life.obj.oid, life.st).get("aggregate")
        agg = it.term(g, life.st) if g is not None else T("const", True)

    def fitted(k, lin):
        while FITTED not in found[k]:
            outer = it.mu[found[k]["frame"]][0]
            if outer.op != "mu" or outer.args[0] not in found:
                return True
            k = outer.args[0]
        return lin.truth(found[k][FITTED])

    def decide(t, lin):
        if t.op == "any" and str(t.args[0]).startswith("alias"):
            return False
        if t in var and var[t] == (FITTED, lin.visit):
            # another feature than the ones visited before
            return lin.truth(it.mu[t][0])
        return None

    def total(k, lin):
        return {T("contributed", k, c): 1 for c in columns(it.mu, found[k]["frame"]) if c in COLUMNS} if fitted(k, lin) else ZERO

    def atom(t, lin):
        if t.op == "const" and t.args[0] is None:
            return ZERO
        if t.op == "sub" and t.args[0] in var and t.args[1].op == "const":
            what, k = var[t.args[0]]
            c = t.args[1].args[0]
            if what == "frame":
                if c not in COLUMNS:
                    return {t: 1}
                return {T("contributed", k, c): 1} if fitted(k, lin) else ZERO
        if t in var and var[t][0] == LEARNED:
            return total(var[t][1], lin)
        if t in var and var[t][0] == CURRENT:
            k = var[t][1]
            if k not in found:
                return {t: 1}
            if not fitted(k, lin):
                return ZERO
            if not lin.truth(agg):
                return total(k, lin)
            return {t: 1}
        return None

    def looked(form):
        """The form with rows looked up, contributions aside."""
        out = ZERO
        for k, c in form.items():
            out = plus(out, {k.args[0] if k.op == "looked up" else k: c})
        return out

    found_oids = {m.args[1][1] for m in var if m.args[1][0] == "f"}
    lin = Linear(it.mu, atom, decide)
    lin.roles = var
    for k, d in sorted(found.items()):
        fr, le = d["frame"], d[LEARNED]
        cols = [T("const", c) for c in COLUMNS if c in columns(it.mu, fr)]
        cu, ft = d.get(CURRENT), d.get(FITTED)
        for end in (0, 1):
            outermost = end == 0 and it.mu[fr][0].op != "mu"
            if outermost:
                continue
            terms = [("form", lin.pw.column(it.mu[fr][end], c)) for c in cols]
            terms.append(("form", it.mu[le][end]))
            terms.append(("form", it.mu[cu][end]) if cu is not None else ("truth", T("const", True)))
            terms.append(("truth", it.mu[ft][end]) if ft is not None else ("truth", T("const", True)))
            terms.append(("truth", agg))
            lin.visit = k if end and found_oids & it.loop_visits.get(it.loop_nodes[k], set()) else None
            try:
                cases = [(e, x) for e, x in lin.cases(terms) if possible(e, it.mu)]
            except OverflowError:
                rep.skipped(nm, "too many cases")
                continue
            rep.ok(STEP, nm, len(cases))
            for env, vals in cases:
                lin.env = env
                pred, learned, cur, isfit, ag = vals[:len(cols)], vals[len(cols)], vals[len(cols) + 1], vals[len(cols) + 2], vals[len(cols) + 3]
                have = ZERO
                for x in pred:
                    have = plus(have, looked(x))
                diff = plus(have, learned if isfit else ZERO, -1)
                if diff:
                    rep.add(STEP, nm, where, "the running prediction and what is learned differ by %s after %s" % (
                        text(diff), "the loop at line %d" % it.loop_nodes[k].lineno if end else "entering a loop"))
                    break
            if cu is None:
                continue
            for env, vals in cases:
                learned, cur, isfit, ag = vals[len(cols):]
                if ag:
                    continue
                rep.ok(REST, nm)
                diff = plus(cur, learned if isfit else ZERO, -1)
                if diff:
                    rep.add(REST, nm, where, "without aggregation the factors that the next update removes differ from those that are part of the "
                            "prediction by %s" % text(diff))
                    break
    lin.visit = None
    final(rep, nm, it, evs, lin, found, total)
    returned(rep, nm, where, it, lin, found, it.term(v, s))
    rep.functions |= it.inlined


def outer(it, found):
    """Training loops that are not part of another one."""
    return [k for k, d in found.items() if it.mu[d["frame"]][0].op != "mu"]


def final(rep, nm, it, evs, lin, found, total):
    """What is stored for predictions is what was learned."""
    main = outer(it, found)
    kept = [ev for ev in evs if ev.kind == "setattr" and ev.data.get("name") == SMOOTHED and ev.data.get("term") is not None]
    t = whole(kept[-1].data["term"]) if kept else None
    if t is None:
        rep.skipped(nm, "nothing found that keeps factors for predictions")
        return
    try:
        cases = lin.cases([("form", t)] + [("truth", found[k][FITTED]) for k in main if FITTED in found[k]])
    except OverflowError:
        return
    rep.ok(FINAL, nm, len(cases))
    for env, vals in cases:
        lin.env = env
        if any(a in it.mu and it.mu[a][0] in lin.roles for a in vals[0]):
            rep.skipped(nm, "arrays changed in place cannot be told apart")
            break
        if all(vals[1:]) and all(plus(vals[0], total(k, lin), -1) for k in main):
            rep.add(FINAL, nm, kept[-1].where(), "the factors kept for predictions are %s" % text(vals[0]))
            break


def whole(t):
    """The array of which all values but the last are kept."""
    cut = False
    while True:
        if t.op == "call" and t.args[0] in ("meth.copy", "numpy.copy", "numpy.array", "numpy.asarray", "cast"):
            t = t.args[1]
        elif t.op == "sub" and t.args[1].op == "slice":
            cut, t = True, t.args[0]
        else:
            return t if cut else None


def returned(rep, nm, where, it, lin, found, t):
    """The prediction handed out belongs to the state in which training ended."""
    while t.op == "upd" and not (t.args[2].op == "mu" and t.args[2].args[0] in found):
        t = t.args[0]
    m = t.args[2] if t.op == "upd" else t
    if m.op != "mu" or m.args[0] not in found:
        rep.skipped(nm, "prediction of training not found")
        return
    k = m.args[0]
    fr = found[k]["frame"]
    stop = [x for x in it.mu if x.op == "mu" and x.args[0] == k and x.args[1][0] == "f" and x.args[1][2] == DIVERGING]
    cols = [c for c in COLUMNS if c in columns(it.mu, fr)]
    terms = [("forms", it.mu[m][1])] + [("form", lin.pw.column(it.mu[fr][1], T("const", c))) for c in cols] + [("truth", it.mu[s][1]) for s in stop]
    try:
        cases = lin.cases(terms)
    except OverflowError:
        rep.skipped(nm, "too many cases")
        return
    rep.ok(BACK, nm, len(cases))
    for env, vals in cases:
        if any(vals[1 + len(cols):]) or not possible(env, it.mu):
            continue
        for c, now in zip(cols, vals[1:]):
            diff = plus(vals[0][c], now, -1) if c in vals[0] else None
            if diff is None or diff:
                rep.add(BACK, nm, where, "the returned prediction " + (
                    "is not computed from the last state of the running one" if diff is None
                    else "differs from the last state of the running one by %s" % text(diff)))
                return


def shared(rep, nm, evs):
    """What is learned and the current factors are different arrays, since both are changed in place."""
    held = {}
    for ev in evs:
        if ev.kind != "setattr" or ev.data["name"] not in (LEARNED, CURRENT) or not isinstance(ev.data["value"], Arr):
            continue
        o, name, cid = ev.data["obj"].oid, ev.data["name"], ev.data["value"].cid
        held[o, name] = cid
        if name == LEARNED:
            rep.ok(STEP, nm)
            if held.get((o, CURRENT)) == cid:
                rep.add(STEP, nm, ev.where(), "what is learned and the current factors are one and the same array")


def possible(env, mu):
    """No variable of a loop differs from its start the first time round."""
    for t, v in env.items():
        if not (v and t.op == "cmp" and t.args[0] == "=="):
            continue
        for c, m in (t.args[1:], t.args[:0:-1]):
            if c.op == "const" and m in mu and mu[m][0] is c and counts(mu[m][1], m):
                for x, w in env.items():
                    if x in mu and x.args[0] == m.args[0] and mu[x][0].op == "const" and bool(mu[x][0].args[0]) != w:
                        return False
    return True


def counts(t, m):
    if t.op == "phi":
        return counts(t.args[1], m) and counts(t.args[2], m)
    return t.op == "bin" and t.args[0] == "Add" and m in t.args[1:] and any(
        x.op == "const" and isinstance(x.args[0], int) and x.args[0] > 0 for x in t.args[1:])


def columns(mu, m, seen=None):
    """Names of the columns of a table that is changed in a loop."""
    seen = set() if seen is None else seen
    out, todo = set(), [m]
    while todo:
        t = todo.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op == "mu" and t in mu:
            todo.extend(mu[t])
        elif t.op == "phi":
            todo.extend(t.args[1:])
        elif t.op == "upd":
            todo.append(t.args[0])
            if t.args[1].op == "const":
                out.add(t.args[1].args[0])
        elif t.op == "call":
            for x in t.kids():
                if x.op == "dict":
                    out |= {k.args[0] for k in x.args[::2] if k.op == "const"}
    return out


def text(form):
    return " + ".join("%s * %s" % (c, show(k, 3)[:120]) for k, c in list(form.items())[:3])


def run(p, rep, tier):
    rep.rule(STEP, "in every loop of training, case by case, the change of the running prediction is the change of the learned factors looked up per row")
    rep.rule(REST, "without aggregation the current factors stay equal to the learned ones")
    parallel(rep, p, world.estimators(p), check, world.short)
    rep.rule(START, "the running prediction of training starts with the value with which predicting the training rows starts")
    parallel(rep, p, world.estimators(p), start, world.short)
    rep.rule(FINAL, "the values kept for predictions are all but the last of the learned factors")
    rep.rule(BACK, "the prediction returned by training is computed from the running prediction as the last iteration leaves it")
    rep.floor(STEP, 100)
