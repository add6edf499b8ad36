"""Core of the value-graph builder: allocation, reading, joining, mutation."""
import ast
from collections import namedtuple

from .terms import T, const, TRUE, FALSE, NONE, subst
from .build import mk_not, mk_and, mk_or, mk_phi, mk_sub, mk_upd, mk_cmp, mk_is, is_bool
from .state import (K, Fn, Cl, Mod, Ext, Sup, Obj, ObjDict, EnumM, Seq, Arr, ExtMeth, Partial, PhiV, UNBOUND, State,
                    Val, Facts)


class Dead(Exception):
    """The current abstract path always raises."""

    def __init__(self, exc=None, node=None):
        Exception.__init__(self, exc)
        self.exc = exc
        self.node = node


class Event(object):
    __slots__ = ("kind", "node", "fi", "facts", "stack", "data")

    def __init__(self, kind, node, fi, facts, stack, data):
        self.kind, self.node, self.fi, self.facts, self.stack, self.data = kind, node, fi, facts, stack, data

    def loc(self):
        m = self.fi.module.relpath if self.fi is not None else "?"
        return "%s:%s" % (m, getattr(self.node, "lineno", "?"))

    def where(self):
        return "%s in %s" % (self.loc(), self.fi.qualname if self.fi is not None else "?")

    def __repr__(self):
        return "<%s %s %r>" % (self.kind, self.where(), self.data)


class Frame(object):
    _n = [0]

    def __init__(self, fi, closure=None, selfv=None, stack=(), yield_hook=None, module=None):
        Frame._n[0] += 1
        self.id = Frame._n[0]
        self.fi = fi
        self.closure = closure  # Frame
        self.selfv = selfv
        self.stack = stack
        self.yield_hook = yield_hook
        self.module = module or fi.module
        self.yields = None
        self.globals = set()
        self.nonlocals = set()


class ObjMeta(object):
    def __init__(self, cls, label, closed=True, node=None, fi=None):
        self.cls, self.label, self.closed, self.node, self.fi = cls, label, closed, node, fi


class CellMeta(object):
    __slots__ = ("bases", "label", "node", "fi", "fresh")

    def __init__(self, bases=(), label=None, node=None, fi=None):
        self.bases, self.label, self.node, self.fi = bases, label, node, fi
        self.fresh = False  # known not to be None


class Core(object):
    MAX_DEPTH = 45

    def __init__(self, program):
        self.p = program
        self.cells = {}
        self.objs = {}
        self.mu = {}
        self.loop_nodes = {}
        self.loop_visits = {}
        self.events = []
        self.recording = True
        self._ncell = 0
        self._nobj = 0
        self._nloop = 0
        self.root = State()
        self.root.facts = self.root.fork_facts = Facts(None, None, None)
        self.assume = None  # optional oracle for conditions: term -> True / False / None
        self.scalars = set()  # terms known to be plain numbers
        self.modframes = {}
        self.globals_cache = {}
        self.inlined = set()
        self.opaque_calls = set()
        self.steps = 0
        self.mod_evaluating = set()
        self.epoch = 0  # number of the life-cycle call being analysed

    # ---------------------------------------------------------------- events
    def event(self, kind, node, fr, st, **data):
        if self.recording:
            self.events.append(Event(kind, node, fr.fi, st.facts, fr.stack, data))

    # ------------------------------------------------------------ allocation
    def new_arr(self, st, term, bases=(), label=None, node=None, fr=None):
        self._ncell += 1
        cid = self._ncell
        self.cells[cid] = CellMeta(tuple(bases), label, node, fr.fi if fr else None)
        if term is not None:
            self.cells[cid].fresh = mk_is(term, NONE) is FALSE
            st.put(("c", cid), term)
        return Arr(cid)

    def new_seq(self, st, kind, items, node=None, fr=None, label=None):
        self._ncell += 1
        cid = self._ncell
        self.cells[cid] = CellMeta((), label, node, fr.fi if fr else None)
        st.put(("c", cid), ("lit", tuple(items)))
        return Seq(cid, kind)

    def new_seq_of(self, st, kind, elem, term, node=None, fr=None, keys=None):
        self._ncell += 1
        cid = self._ncell
        self.cells[cid] = CellMeta((), None, node, fr.fi if fr else None)
        st.put(("c", cid), ("of", elem, term, keys))
        return Seq(cid, kind)

    def sym(self, st, name, label=None):
        return self.new_arr(st, T("sym", name), label=label if label is not None else name)

    def new_obj(self, cls, label, node=None, fr=None, closed=True):
        key = None
        if node is not None and fr is not None:
            key = (self.epoch, id(node)) + tuple(id(s[1]) for s in fr.stack)
        if key is not None:
            oid = ("o", cls.name, key)
            if oid not in self.objs:
                self.objs[oid] = ObjMeta(cls, label, closed, node, fr.fi if fr else None)
        else:
            self._nobj += 1
            oid = ("o", cls.name, self._nobj)
            self.objs[oid] = ObjMeta(cls, label, closed, node, fr.fi if fr else None)
        return Obj(oid)

    def loopid(self):
        self._nloop += 1
        return self._nloop

    # ------------------------------------------------------------- contents
    def content(self, cid, st):
        c = st.get(("c", cid))
        if c is not None:
            return c
        c = self.root.get(("c", cid))
        if c is not None:
            return c
        m = self.cells[cid]
        if m.bases:
            b, how, idx = m.bases[0]
            bt = self.term_c(b, st)
            if how == "view":
                return mk_sub(bt, idx)
            return bt
        return T("lost", cid)

    def term_c(self, cid, st):
        c = self.content(cid, st)
        if isinstance(c, tuple):
            return self._seq_term(c, st, "list", 0)
        return self.simp(c, st)

    def simp(self, t, st):
        """Resolve top-level phis whose condition is settled by the facts."""
        n = 0
        while t.op == "phi" and n < 50:
            d = self.decide(t.args[0], st)
            if d is None:
                break
            t = t.args[1] if d else t.args[2]
            n += 1
        return t

    def _seq_term(self, c, st, kind, depth):
        if depth > 4:
            return T("deep")
        if c[0] == "lit":
            if kind == "dict":
                out = []
                for k, v in c[1]:
                    out.append(self.term(k, st, depth + 1))
                    out.append(self.term(v, st, depth + 1))
                return T("dict", *out)
            return T(kind, *[self.term(v, st, depth + 1) for v in c[1]])
        elem = self.term(c[1], st, depth + 1) if c[1] is not None else NONE
        return T("comp", kind, elem, c[2])

    def term(self, v, st, depth=0):
        if isinstance(v, Arr):
            return self.term_c(v.cid, st)
        if isinstance(v, K):
            try:
                return const(v.v)
            except TypeError:
                return T("const", repr(v.v))
        if isinstance(v, Obj):
            return T("obj", v.oid)
        if isinstance(v, Seq):
            c = self.content(v.cid, st)
            if not isinstance(c, tuple):
                return c
            return self._seq_term(c, st, v.kind, depth)
        if isinstance(v, Fn):
            if v.selfv is not None:
                return T("func", v.info.qualname, self.term(v.selfv, st, depth + 1))
            return T("func", v.info.qualname)
        if isinstance(v, Cl):
            return T("class", v.info.qualname)
        if isinstance(v, Mod):
            return T("mod", v.m.name)
        if isinstance(v, Ext):
            return T("ext", v.q)
        if isinstance(v, EnumM):
            return T("enum", v.cls.qualname, v.name)
        if isinstance(v, PhiV):
            if depth > 6:
                return T("deep")
            d = self.decide(v.cond, st)
            if d is not None:
                return self.term(v.a if d else v.b, st, depth)
            return mk_phi(v.cond, self.term(v.a, st, depth + 1), self.term(v.b, st, depth + 1))
        if isinstance(v, ExtMeth):
            return T("attr", self.term(v.recv, st, depth + 1), v.name)
        if isinstance(v, ObjDict):
            return T("attr", T("obj", v.oid), "__dict__")
        if isinstance(v, Partial):
            return T("partial", self.term(v.fn, st, depth + 1), *[self.term(a, st, depth + 1) for a in v.args])
        if isinstance(v, Sup):
            return T("super", v.cls.qualname)
        return T("unbound")

    def seq_items(self, v, st):
        """Literal items of a Seq, or None."""
        if isinstance(v, Seq):
            c = self.content(v.cid, st)
            if isinstance(c, tuple) and c[0] == "lit":
                return c[1]
        return None

    # ---------------------------------------------------------------- truth
    def decide(self, t, st):
        if t.op in ("and", "or", "not", "phi", "cmp"):
            memo = st.facts.index
            if memo is None:
                memo = st.facts.index = {}
            r = memo.get(t, memo)
            if r is memo:
                r = memo[t] = self._decide(t, st)
            return r
        return self._decide(t, st)

    def _decide(self, t, st):
        op = t.op
        if op == "const":
            try:
                return bool(t.args[0])
            except Exception:
                return None
        f = st.facts.lookup(t)
        if f is not None:
            return f
        if self.assume is not None:
            f = self.assume(t)
            if f is not None:
                return f
        if op == "not":
            d = self.decide(t.args[0], st)
            return None if d is None else (not d)
        if op == "and":
            und = False
            for a in t.args:
                d = self.decide(a, st)
                if d is False:
                    return False
                if d is None:
                    und = True
            return None if und else True
        if op == "or":
            und = False
            for a in t.args:
                d = self.decide(a, st)
                if d is True:
                    return True
                if d is None:
                    und = True
            if not und:
                return False
            # a disjunction known as a fact with more members
            return None
        if op == "phi":
            d = self.decide(t.args[0], st)
            if d is not None:
                return self.decide(t.args[1] if d else t.args[2], st)
            x, y = self.decide(t.args[1], st), self.decide(t.args[2], st)
            if x is not None and x == y:
                return x
            return None
        if op == "cmp" and t.args[0] == "==":
            a, b = t.args[1], t.args[2]
            # x == c1 known true  =>  x == c2 false for another constant
            for ft, fv in st.facts.items():
                if fv and ft.op == "cmp" and ft.args[0] == "==" and ft is not t:
                    for x, c1 in ((ft.args[1], ft.args[2]), (ft.args[2], ft.args[1])):
                        if c1.op not in ("const", "class", "enum"):
                            continue
                        for y, c2 in ((a, b), (b, a)):
                            if y is x and c2.op == c1.op and c2 is not c1 and c1.args != c2.args:
                                return False
        if op == "cmp" and t.args[0] == "is" and t.args[2] is NONE:
            a = t.args[1]
            if st.facts.lookup(T("truth", a)) is True:
                return False
            for ft, fv in st.facts.items():
                if fv and ft.op == "isinstance" and ft.args[0] is a:
                    return False
                if fv and ft.op == "cmp" and ft.args[0] == "==" and a in (ft.args[1], ft.args[2]):
                    o = ft.args[1] if ft.args[2] is a else ft.args[2]
                    if o.op in ("const", "class") and o is not NONE:
                        return False
        if op in ("cmp", "truth", "isinstance", "call"):
            # the last possible member of a disjunction known to hold
            for ft, fv in st.facts.items():
                if fv and ft.op == "or" and t in ft.args:
                    if all(st.facts.lookup(m) is False or (m.op == "not" and st.facts.lookup(m.args[0]) is True)
                           for m in ft.args if m is not t):
                        return True
        if op == "truth":
            a = t.args[0]
            if st.facts.lookup(T("cmp", "is", a, NONE)) is True:
                return False
            if a.op == "mu":
                return None
        return None

    def cond(self, v, st):
        """Boolean term for the truth of a value."""
        if isinstance(v, K):
            return const(bool(v.v))
        if isinstance(v, (Fn, Cl, Mod, Ext, EnumM, Partial, ObjDict)):
            return TRUE
        if isinstance(v, Obj):
            m = self.objs[v.oid]
            if m.cls.lookup("__len__") or m.cls.lookup("__bool__"):
                return T("truth", T("obj", v.oid))
            return TRUE
        if isinstance(v, Seq):
            c = self.content(v.cid, st)
            if isinstance(c, tuple) and c[0] == "lit":
                return const(len(c[1]) > 0)
            return T("truth", self.term(v, st))
        if isinstance(v, PhiV):
            return mk_phi(v.cond, self.cond(v.a, st), self.cond(v.b, st))
        t = self.term(v, st)
        return self.truth_term(t)

    def truth_term(self, t):
        if t.op == "const":
            try:
                return const(bool(t.args[0]))
            except Exception:
                return T("truth", t)
        if t.op in ("tuple", "list", "dict", "set"):
            return const(len(t.args) > 0)
        if t.op in ("func", "class", "ext", "obj"):
            return TRUE
        if is_bool(t):
            return t
        if t.op == "phi":
            return mk_phi(t.args[0], self.truth_term(t.args[1]), self.truth_term(t.args[2]))
        return T("truth", t)

    # ---------------------------------------------------------------- joins
    def same(self, a, b):
        if a is b:
            return True
        if type(a) is not type(b):
            return False
        if isinstance(a, K):
            return type(a.v) is type(b.v) and (a.v is b.v or a.v == b.v)
        if isinstance(a, (Arr,)):
            return a.cid == b.cid
        if isinstance(a, Seq):
            return a.cid == b.cid
        if isinstance(a, (Obj, ObjDict)):
            return a.oid == b.oid
        if isinstance(a, Cl):
            return a.info is b.info
        if isinstance(a, Fn):
            return a.info is b.info and a.closure is b.closure and (
                a.selfv is b.selfv or (a.selfv is not None and b.selfv is not None and self.same(a.selfv, b.selfv)))
        if isinstance(a, Ext):
            return a.q == b.q
        if isinstance(a, Mod):
            return a.m is b.m
        if isinstance(a, EnumM):
            return a.cls is b.cls and a.name == b.name
        if isinstance(a, PhiV):
            return a.cond is b.cond and self.same(a.a, b.a) and self.same(a.b, b.b)
        if isinstance(a, ExtMeth):
            return a.name == b.name and self.same(a.recv, b.recv)
        return False

    def join_val(self, cond, va, vb, A, B, J, field=False):
        if va is None or va is UNBOUND:
            if field and vb is not None and vb is not UNBOUND:
                return PhiV(cond, UNBOUND, vb)
            return vb
        if vb is None or vb is UNBOUND:
            if field:
                return PhiV(cond, va, UNBOUND)
            return va
        if self.same(va, vb):
            return va
        if isinstance(va, (Arr, K)) and isinstance(vb, (Arr, K)):
            ta, tb = self.term(va, A), self.term(vb, B)
            bases = []
            for v in (va, vb):
                if isinstance(v, Arr):
                    bases.append((v.cid, "may", None))
            return self.new_arr(J, mk_phi(cond, ta, tb), bases)
        if isinstance(va, Seq) and isinstance(vb, Seq) and va.kind == vb.kind:
            ia, ib = self.seq_items(va, A), self.seq_items(vb, B)
            if ia is not None and ib is not None and len(ia) == len(ib) and len(ia) <= 40:
                if va.kind in ("list", "tuple"):
                    items = [self.join_val(cond, x, y, A, B, J) for x, y in zip(ia, ib)]
                    r = self.new_seq(J, va.kind, items)
                    self.cells[r.cid].bases = ((va.cid, "may", None), (vb.cid, "may", None))
                    return r
        if isinstance(va, PhiV) and va.cond is cond:
            va = va.a
        if isinstance(vb, PhiV) and vb.cond is cond:
            vb = vb.b
        if self.same(va, vb):
            return va
        return PhiV(cond, va, vb)

    def join_content(self, cond, ca, cb, A, B, J):
        if ca is None:
            return cb
        if cb is None:
            return ca
        if ca is cb:
            return ca
        if isinstance(ca, T) and isinstance(cb, T):
            return mk_phi(cond, ca, cb)
        if isinstance(ca, tuple) and isinstance(cb, tuple):
            if ca == cb:
                return ca
            if ca[0] == "lit" and cb[0] == "lit":
                la, lb = ca[1], cb[1]
                isdict = bool(la and isinstance(la[0], tuple)) or bool(lb and isinstance(lb[0], tuple))
                if isdict:
                    merged = []
                    da = self._dict_const(la)
                    db = self._dict_const(lb)
                    if da is not None and db is not None:
                        for k in list(da) + [k for k in db if k not in da]:
                            x, y = da.get(k), db.get(k)
                            kv = (x or y)[0]
                            if x is not None and y is not None:
                                merged.append((kv, self.join_val(cond, x[1], y[1], A, B, J)))
                            else:
                                merged.append((kv, PhiV(cond, x[1] if x else UNBOUND, y[1] if y else UNBOUND)))
                        return ("lit", tuple(merged))
                elif len(la) == len(lb):
                    return ("lit", tuple(self.join_val(cond, x, y, A, B, J) for x, y in zip(la, lb)))
                # different lengths: summarise
                allv = list(la) + list(lb)
                ta = self._seq_term(ca, A, "dict" if isdict else "list", 0)
                tb = self._seq_term(cb, B, "dict" if isdict else "list", 0)
                if isdict:
                    vals = [v for _, v in allv]
                    keys = [k for k, _ in allv]
                    return ("of", self._summ(vals, A, B, J), mk_phi(cond, ta, tb), self._summ(keys, A, B, J))
                return ("of", self._summ(allv, A, B, J), mk_phi(cond, ta, tb), None)
            va = [ca[1]] if ca[0] == "of" else list(ca[1])
            vb = [cb[1]] if cb[0] == "of" else list(cb[1])
            isd = (va and isinstance(va[0], tuple)) or (vb and isinstance(vb[0], tuple))
            ks = None
            if isd or (ca[0] == "of" and ca[3] is not None) or (cb[0] == "of" and cb[3] is not None):
                ks = [ca[3]] if ca[0] == "of" else [k for k, _ in ca[1]]
                ks += [cb[3]] if cb[0] == "of" else [k for k, _ in cb[1]]
                va = [ca[1]] if ca[0] == "of" else [v for _, v in ca[1]]
                vb = [cb[1]] if cb[0] == "of" else [v for _, v in cb[1]]
                ks = self._summ([k for k in ks if k is not None], A, B, J)
            kind = "dict" if ks is not None else "list"
            return ("of", self._summ([v for v in va + vb if v is not None], A, B, J),
                    mk_phi(cond, self._seq_term(ca, A, kind, 0), self._seq_term(cb, B, kind, 0)), ks)
        # sequence on one side, opaque term on the other
        ta = ca if isinstance(ca, T) else self._seq_term(ca, A, "list", 0)
        tb = cb if isinstance(cb, T) else self._seq_term(cb, B, "list", 0)
        return mk_phi(cond, ta, tb)

    def _dict_const(self, items):
        d = {}
        for it in items:
            if not isinstance(it, tuple) or not isinstance(it[0], K):
                return None
            try:
                d[it[0].v] = it
            except TypeError:
                return None
        return d

    def _summ(self, vals, A, B, J):
        """One value standing for any of the given ones."""
        r = None
        for v in vals:
            if v is UNBOUND or v is None:
                continue
            if r is None:
                r = v
                continue
            if self.same(r, v):
                continue
            c = T("any", self.loopid())
            r = self.join_val(c, r, v, A if r is not v else B, B, J)
        return r

    def join2(self, anc, cond, A, B):
        """Join two descendants of anc; A holds under cond, B under its negation."""
        J = State(anc)
        da, db = A.delta_since(anc), B.delta_since(anc)
        keys = list(da)
        keys.extend(k for k in db if k not in da)
        for k in keys:
            va = da.get(k)
            if va is None:
                va = anc.get(k)
            vb = db.get(k)
            if vb is None:
                vb = anc.get(k)
            if va is vb:
                J.delta[k] = va
                continue
            if k[0] == "c":
                if va is None or vb is None:
                    # cell allocated on one side only, or a lazy view written on one side
                    cid = k[1]
                    lazy = self.cells[cid].bases and (anc.get(k) is None)
                    if lazy and not (k in da and k in db) and self._predates(cid, anc):
                        va = self.content(cid, A)
                        vb = self.content(cid, B)
                        J.delta[k] = self.join_content(cond, va, vb, A, B, J)
                    else:
                        J.delta[k] = va if va is not None else vb
                else:
                    J.delta[k] = self.join_content(cond, va, vb, A, B, J)
            elif k[0] == "f":
                J.delta[k] = self.join_val(cond, va, vb, A, B, J, field=True)
            elif k[0] in ("v", "ret"):
                r = self.join_val(cond, va, vb, A, B, J)
                if r is not None:
                    J.delta[k] = r
            else:
                J.delta[k] = va if va is not None else vb
        fa = A.facts.since(anc.facts)
        fb = set(B.facts.since(anc.facts))
        for f in fa:
            if f in fb:
                J.facts = Facts(J.facts, f[0], f[1])
        # what holds on one side only holds as an implication of the branch; keep disjunctive facts out
        return J

    def _predates(self, cid, anc):
        return False

    def rel_cond(self, S, O, anc):
        """A condition that separates outcome S from O below anc."""
        fs = S.facts.since(anc.facts)
        fo = dict(O.facts.since(anc.facts))
        for t, v in fs:
            if t in fo and fo[t] != v:
                return t if v else mk_not(t)
        c = mk_and(*[t if v else mk_not(t) for t, v in fs])
        if c is TRUE:
            return T("any", self.loopid())
        return c

    def join_many(self, anc, states):
        acc = states[-1]
        for s in reversed(states[:-1]):
            acc = self.join2(anc, self.rel_cond(s, acc, anc), s, acc)
        return acc

    def commit(self, st, J):
        if J is st:
            return
        st.delta.update(J.delta_since(st))
        st.facts = J.facts

    # ---------------------------------------------------------------- roots
    def roots(self, v, st, depth=0, seen=None):
        """Labels of the caller-visible memory this value may share."""
        seen = set() if seen is None else seen
        out = set()
        if isinstance(v, Arr) or isinstance(v, Seq):
            self._roots_c(v.cid, st, out, seen)
        elif isinstance(v, PhiV):
            d = self.decide(v.cond, st)
            if d is not False:
                out |= self.roots(v.a, st, depth + 1, seen)
            if d is not True:
                out |= self.roots(v.b, st, depth + 1, seen)
        elif isinstance(v, Obj):
            m = self.objs[v.oid]
            if m.label:
                out.add(m.label)
        elif isinstance(v, ObjDict):
            m = self.objs[v.oid]
            if m.label:
                out.add(m.label)
        return out

    def _roots_c(self, cid, st, out, seen):
        if cid in seen:
            return
        seen.add(cid)
        m = self.cells[cid]
        if m.label is not None:
            out.add(m.label)
        for b, how, idx in m.bases:
            self._roots_c(b, st, out, seen)

    def content_roots(self, v, st, seen=None):
        """Roots of the value and, for containers, of its elements."""
        seen = set() if seen is None else seen
        out = set(self.roots(v, st))
        if isinstance(v, Seq):
            if v.cid in seen:
                return out
            seen.add(v.cid)
            c = self.content(v.cid, st)
            if isinstance(c, tuple):
                if c[0] == "lit":
                    for it in c[1]:
                        for x in (it if isinstance(it, tuple) else (it,)):
                            out |= self.content_roots(x, st, seen)
                elif c[1] is not None:
                    out |= self.content_roots(c[1], st, seen)
        elif isinstance(v, PhiV):
            out |= self.content_roots(v.a, st, seen) | self.content_roots(v.b, st, seen)
        return out

    # -------------------------------------------------------------- mutation
    def mutate(self, v, newterm, st, fr, node, how, idx=None, value=None):
        """In-place change of an Arr (or opaque Seq)."""
        self.event("mutate", node, fr, st, roots=frozenset(self.roots(v, st)), how=how, idx=idx, target=v, value=value,
                   before=self.term(v, st), after=newterm)
        if isinstance(v, Arr) or isinstance(v, Seq):
            self._write_cell(v.cid, newterm, st, 0)

    def _write_cell(self, cid, newterm, st, depth):
        if depth > 12:
            return
        m = self.cells[cid]
        own = [b for b in m.bases if b[1] in ("view", "alias")]
        if len(m.bases) == 1 and own and st.get(("c", cid)) is None and self.root.get(("c", cid)) is None:
            b, how, idx = m.bases[0]
            if how == "view":
                self._write_cell(b, mk_upd(self.term_c(b, st), idx, newterm), st, depth + 1)
            else:
                self._write_cell(b, newterm, st, depth + 1)
            return
        st.put(("c", cid), newterm)
        for b, how, idx in m.bases:
            bt = self.term_c(b, st)
            if how == "view":
                nt = mk_upd(bt, idx, newterm)
            elif how == "alias":
                nt = newterm
            else:
                nt = mk_phi(T("any", "alias%d" % cid), newterm, bt)
            if isinstance(self.content(b, st), T):
                self._write_cell(b, nt, st, depth + 1)
