"""C16: feature property flags mean what their names say, and contradictory flags are refused."""
from ..bits import Forms, NoForm, WIDTH
from ..interp import Interp
from ..program import AnalysisBroken
from ..state import K, State
from ..terms import T, walk
from .. import world

PRED = "flag-predicate"
BITS = "flag-values"
CONS = "contradictory-flags"
TEXT = "flag-names"
READ = "property-lookup"
MOD = "cyclic_boosting.flags"

FLAGS = {
    "IS_CONTINUOUS": "is_continuous_set", "IS_ORDERED": "is_ordered_set", "IS_UNORDERED": "is_unordered_set",
    "IS_MONOTONIC": "is_monotonic_set", "HAS_MISSING": "has_missing_set", "MISSING_NOT_LEARNED": "missing_not_learned_set",
    "IS_LINEAR": "is_linear_set", "IS_SEASONAL": "is_seasonal_set", "HAS_MAGIC_INT_MISSING": "has_magic_missing_set",
    "INCREASING": "increasing_set", "DECREASING": "decreasing_set", "USE_ORIGINAL": None, "CORR_TO_WIDTH": None,
}
IMPLIES = {"IS_MONOTONIC": {"IS_CONTINUOUS"}, "MISSING_NOT_LEARNED": {"HAS_MISSING"}, "HAS_MAGIC_INT_MISSING": {"HAS_MISSING"}}
BASIC = ("IS_CONTINUOUS", "IS_ORDERED", "IS_UNORDERED")
WAYS = ("INCREASING", "DECREASING")


def masks(p, it=None):
    """The values of the flag constants as the module defines them."""
    m = p.modules.get(MOD)
    if m is None:
        raise AnalysisBroken("no module " + MOD)
    it = it or Interp(p)
    out = {}
    for n in FLAGS:
        v = it.module_global(m, n)
        if isinstance(v, K) and isinstance(v.v, int) and not isinstance(v.v, bool):
            out[n] = v.v
        else:
            raise AnalysisBroken("value of %s is not a constant" % n)
    return out


def resolver(it, p):
    """Constants read through the namespace of a module."""
    def find(t):
        if t.op == "sub" and t.args[1].op == "const":
            src = t.args[0]
            while src.op == "call" and src.args[0] == "builtins.dict" and len(src.args) == 2:
                src = src.args[1]
            if src.op in ("globals", "vars"):
                m = p.modules.get(src.args[0])
                v = it.module_global(m, t.args[1].args[0]) if m else None
                if isinstance(v, K):
                    return (v.v,)
        return None
    return find


def test_of(forms, x, mask):
    return forms.bool(T("cmp", "==", T("bin", "BitAnd", x, T("const", mask)), T("const", mask)))


def show(bits, names):
    """A flag word for a message."""
    w = sum(1 << i for i, b in bits.items() if b)
    have = [n for n, m in names.items() if w & m == m]
    return "%d (%s)" % (w, " | ".join(have) or "none")


def values(rep, p):
    m = masks(p)
    loc = p.modules[MOD].relpath
    for n in m:
        rep.ok(BITS, n)
        if m[n] <= 0 or m[n] >= 1 << WIDTH - 2:
            rep.add(BITS, n, loc, "value %d is not a set of flag bits" % m[n])
        for k in m:
            if k != n and m[n] & m[k] == m[k] and k not in IMPLIES.get(n, ()):
                rep.add(BITS, n, loc, "setting %s also sets %s" % (n, k))
        for k in IMPLIES.get(n, ()):
            if m[n] & m[k] != m[k]:
                rep.add(BITS, n, loc, "setting %s does not set %s" % (n, k))
    # no union of other flags may amount to a flag
    for n in m:
        others = 0
        for k in m:
            if k != n and n not in IMPLIES.get(k, ()):
                others |= m[k]
        rep.ok(BITS)
        if others & m[n] == m[n]:
            rep.add(BITS, n, loc, "%s is set by a combination of other flags" % n)


def predicates(rep, p):
    m = masks(p)
    for n, fn in FLAGS.items():
        if fn is None:
            continue
        rep.guard(fn, predicate, rep, p, m, n, fn)


def predicate(rep, p, m, n, fn):
    fi = p.func("%s.%s" % (MOD, fn))
    it = Interp(p)
    st = State(it.root)
    par = fi.all_params[0]
    v, s = it.call_entry(fi, st)
    rep.functions |= it.inlined
    if s is None:
        rep.ok(PRED, fn)
        rep.add(PRED, fn, fi.loc(), "raises for every value")
        return
    x = T("sym", par)
    f = Forms([x], resolver(it, p))
    try:
        got = f.bool(it.term(v, s))
    except NoForm:
        rep.skipped(fn, "not a function of the flag bits")
        return
    rep.ok(PRED, fn)
    want = test_of(f, x, m[n])
    diff = f.dd.xor(got, want)
    if diff is not False:
        rep.add(PRED, fn, fi.loc(), "does not report whether %s is set, e.g. for the flags %s" % (n, show(f.dd.one(diff), m)))


def region(f, x, m, have):
    r = True
    for n, on in have:
        c = test_of(f, x, m[n])
        r = f.dd.conj(r, c if on else f.dd.neg(c))
    return r


def combos():
    for w in range(32):
        yield [(n, bool(w >> i & 1)) for i, n in enumerate(BASIC + WAYS)]


def consistency(rep, p, entry, label):
    """``entry(it, st, x)`` runs the code that has to refuse contradictory flags; None when it cannot be set up."""
    m = masks(p)
    for have in combos():
        it = Interp(p)
        st = State(it.root)
        x = T("sym", "feature_prop")
        f = Forms([x], resolver(it, p))
        r = region(f, x, m, have)
        if r is False:
            continue
        unknown = []

        def ask(t):
            try:
                c = f.bool(t)
            except NoForm:
                unknown.append(t)
                return None
            if f.dd.implies(r, c):
                return True
            if f.dd.implies(r, f.dd.neg(c)):
                return False
            return None
        it.assume = ask
        n0 = len(it.events)
        fi, (v, s) = entry(it, st)
        rep.functions |= it.inlined
        on = [n for n, b in have if b]
        bad = sum(1 for n in BASIC if n in on) != 1 or all(n in on for n in WAYS)
        name = "%s %s" % (label, "+".join(on) or "none")
        rep.ok(CONS, name)
        if bad and s is not None:
            rep.add(CONS, name, fi.loc(), "flags %s are accepted" % (" | ".join(on) or "without any kind of feature"))
        if bad and s is None and v is not None and getattr(v, "exc", "ValueError") not in ("ValueError", None):
            rep.add(CONS, name, fi.loc(), "flags %s end in %s instead of a ValueError" % (" | ".join(on), v.exc))
        if not bad:
            for ev in it.events[n0:]:
                if ev.kind != "raise" or ev.data.get("implicit") or ev.data.get("exc") != "ValueError":
                    continue
                try:
                    c = f.dd.conj(r, f.path(ev.facts))
                except NoForm:
                    continue
                if c is not False:
                    rep.add(CONS, name, ev.loc(), "consistent flags %s are refused" % show(f.dd.one(c), m))


def check_entry(p):
    fi = p.func(MOD + ".check_flags_consistency")

    def entry(it, st):
        return fi, it.call_entry(fi, st, kwargs={fi.all_params[0]: it.sym(st, "feature_prop")})
    return entry


def text(rep, p):
    m = masks(p)
    fi = p.func(MOD + ".flags_to_string")
    it = Interp(p)
    st = State(it.root)
    x = T("sym", fi.all_params[0])
    f = Forms([x], resolver(it, p))
    it.assume = lambda t: False if t.op == "isinstance" and t.args[0] is x else None
    it.scalars.add(x)
    v, s = it.call_entry(fi, st, kwargs={fi.all_params[0]: it.sym(st, fi.all_params[0], label="param:flags")})
    rep.functions |= it.inlined
    if s is None:
        raise AnalysisBroken("flags_to_string always raises")
    named, refused = {}, False
    for ev in it.events:
        if ev.kind == "raise" and not ev.data.get("implicit"):
            refused = f.dd.disj(refused, f.path(ev.facts))
        if ev.kind == "mutate" and ev.data.get("how") in (".append", ".add", ".extend", "Add="):
            a = ev.data["value"]
            if isinstance(a, K) and a.v in m:
                named[a.v] = f.dd.disj(named.get(a.v, False), f.path(ev.facts))
    if not named:
        rep.skipped("flags_to_string", "names are not collected one by one")
        return
    whole = False
    for n in m:
        rep.ok(TEXT, n)
        want = test_of(f, x, m[n])
        got = named.get(n, False)
        diff = f.dd.conj(f.dd.xor(got, want), f.dd.neg(refused))
        if diff is not False:
            rep.add(TEXT, n, fi.loc(), "%s is %s for the flags %s" % (
                n, "missing" if f.dd.conj(want, diff) is not False else "named", show(f.dd.one(diff), m)))
    # words made up of known flags are not refused
    covered = True
    for i in range(WIDTH):
        b = f.words[x].bits[i]
        c = False
        for n in m:
            if m[n] >> i & 1:
                c = f.dd.disj(c, test_of(f, x, m[n]))
        covered = f.dd.conj(covered, f.dd.disj(f.dd.neg(b), c))
    rep.ok(TEXT, "known words")
    bad = f.dd.conj(covered, refused)
    if bad is not False:
        rep.add(TEXT, "known words", fi.loc(), "flags %s are refused as unknown" % show(f.dd.one(bad), m))
    rep.ok(TEXT, "unknown words")
    bad = f.dd.conj(f.dd.neg(covered), f.dd.neg(refused))
    if bad is not False:
        rep.add(TEXT, "unknown words", fi.loc(), "flags %s contain a bit without meaning and are accepted" % show(f.dd.one(bad), m))


def binner(rep, p, cls):
    """A binner that knows the flags of its columns lets contradictory ones be refused while it trains."""
    m = masks(p)
    name = world.short(cls)
    fi = cls.lookup("fit")[2]

    def refusals(have):
        it = Interp(p)
        st = State(it.root)
        mine = {}

        def ask(t):
            for x in flag_words(t):
                if x not in mine:
                    g = Forms([x], resolver(it, p))
                    mine[x] = (g, region(g, x, m, have))
            for g, r in mine.values():
                try:
                    c = g.bool(t)
                except NoForm:
                    continue
                if g.dd.implies(r, c):
                    return True
                if g.dd.implies(r, g.dd.neg(c)):
                    return False
            return None
        it.assume = ask
        o = it.construct(cls, st, {"feature_properties": it.sym(st, "feature_properties", label="param:feature_properties")})
        n0 = len(it.events)
        it.call_entry(fi, st, o)
        rep.functions |= it.inlined
        return mine, {(ev.fi.qualname, id(ev.node)) for ev in it.events[n0:]
                      if ev.kind == "raise" and ev.data.get("exc") == "ValueError" and not ev.data.get("implicit")}

    mine, usual = refusals([(n, n == BASIC[0]) for n in BASIC + WAYS])
    if not mine:
        rep.skipped(name, "the flags are not read column by column")
        return
    for have in combos():
        on = [n for n, b in have if b]
        if sum(1 for n in BASIC if n in on) == 1 and not all(n in on for n in WAYS):
            continue
        tag = "%s %s" % (name, "+".join(on) or "none")
        rep.ok(CONS, tag)
        if not refusals(have)[1] - usual:
            rep.add(CONS, name, fi.loc(), "training does not refuse the flags %s" % (" | ".join(on) or "without any kind of feature"))
            return


def flag_words(t):
    return [x for x in walk(t) if x.op == "sub" and x.args[0].op == "sym" and x.args[0].args[0] == "feature_properties"
            or x.op == "call" and x.args[0] == "meth.get" and x.args[1].op == "sym" and x.args[1].args[0] == "feature_properties"]


def lookup(rep, p):
    """read_feature_property over the cases: no dictionary, known name, unknown name, tuple of names."""
    fi = p.func(MOD + ".read_feature_property")
    pn = fi.all_params
    if len(pn) < 3:
        raise AnalysisBroken("read_feature_property has other parameters")
    for name, given, group in (("no dictionary", False, "a"), ("known feature", True, "a"), ("other feature", True, "b"),
                               ("known and other feature", True, ("a", "b")), ("one known feature", True, ("a",))):
        it = Interp(p)
        st = State(it.root)
        x, dflt = it.sym(st, "flags", label="param:flags"), it.sym(st, "default", label="param:default")
        tx, td = it.term(x, st), it.term(dflt, st)
        it.assume = lambda t: False if t.op == "cmp" and t.args[0] == "is" and tx in t.args else (
            False if t.op == "is" and tx in t.args else None)
        d = it.new_seq(st, "dict", [(K("a"), x)]) if given else K(None)
        g = it.new_seq(st, "tuple", [K(k) for k in group]) if isinstance(group, tuple) else K(group)
        v, s = it.call_entry(fi, st, kwargs={pn[0]: d, pn[1]: g, pn[2]: dflt})
        rep.functions |= it.inlined
        want = [(tx if given and k == "a" else td) for k in (group if isinstance(group, tuple) else (group,))]
        if s is None:
            rep.ok(READ, name)
            rep.add(READ, name, fi.loc(), "raises %s" % v.exc)
            continue
        got = it.term(v, s)
        if isinstance(group, tuple):
            if got.op != "tuple":
                rep.skipped("read_feature_property", "result for a tuple is not a plain tuple: %s" % got)
                continue
            got = list(got.args)
        else:
            got = [got]
        rep.ok(READ, name)
        if got == want:
            continue
        if any(any(y.op not in ("sym", "const") for y in walk(t)) for t in got):
            rep.skipped("read_feature_property", "%s: %s" % (name, got))
            rep.counters["obligations." + READ] -= 1
            continue
        rep.add(READ, name, fi.loc(), "the property found is %s, not %s" % (got, want))


def run(p, rep, tier):
    rep.rule(BITS, "each flag constant has bits of its own; IS_MONOTONIC includes IS_CONTINUOUS, MISSING_NOT_LEARNED and "
                   "HAS_MAGIC_INT_MISSING include HAS_MISSING, and no other flag includes another one")
    rep.rule(PRED, "the canonical form of each predicate over the bits of the flag word equals that of 'all bits of the flag are set'")
    rep.rule(CONS, "for every combination of the five flags that can contradict each other: refused exactly when not exactly one of "
                   "IS_CONTINUOUS, IS_ORDERED, IS_UNORDERED is set or when both INCREASING and DECREASING are")
    rep.rule(TEXT, "flags_to_string names exactly the flags that are set and refuses exactly the words with other bits")
    rep.guard("flag constants", values, rep, p)
    rep.guard("predicates", predicates, rep, p)
    rep.guard("check_flags_consistency", consistency, rep, p, check_entry(p), "check_flags_consistency")
    rep.guard("flags_to_string", text, rep, p)
    rep.rule(READ, "the property of a feature is the one in the dictionary, and the default for features that are not in it")
    rep.guard("read_feature_property", lookup, rep, p)
    for cls in world.transformers(p):
        rep.guard(world.short(cls), binner, rep, p, cls)
    rep.floor(BITS, 13)
