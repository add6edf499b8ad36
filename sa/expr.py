"""Expression evaluation."""
import ast
import builtins

from .terms import T, const, TRUE, FALSE, NONE
from .build import mk_not, mk_and, mk_or, mk_phi, mk_sub, mk_upd, mk_cmp, mk_is, mk_bin, mk_un, mk_call, is_bool
from .state import (K, Fn, Cl, Mod, Ext, Sup, Obj, ObjDict, EnumM, Seq, Arr, ExtMeth, Partial, PhiV, UNBOUND, State)
from .core import Core, Dead, Frame
from .program import FuncInfo, ClassInfo, dotted
from . import extmodel as X

_CMP = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.Is: "is",
        ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}
_UN = {ast.USub: "neg", ast.UAdd: "pos", ast.Invert: "inv"}
BUILTINS = set(dir(builtins))


class ExprMixin(Core):

    def ev(self, e, st, fr):
        self.steps += 1
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is None:
            return self.ev_generic(e, st, fr)
        return m(e, st, fr)

    def ev_generic(self, e, st, fr):
        ts = []
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                ts.append(self.term(self.ev(c, st, fr), st))
        return self.new_arr(st, T("opaque", type(e).__name__, *ts), node=e, fr=fr)

    def res(self, st, term, e=None, fr=None, bases=()):
        """Value for a computed term."""
        if term.op == "const" and not bases:
            return K(term.args[0])
        return self.new_arr(st, term, bases, node=e, fr=fr)

    # ------------------------------------------------------------- atoms
    def ev_Constant(self, e, st, fr):
        return K(e.value)

    def ev_Name(self, e, st, fr):
        return self.lookup_name(e.id, st, fr, e)

    def lookup_name(self, name, st, fr, e=None):
        f = fr
        if name not in fr.globals:
            while f is not None:
                v = st.get(("v", f.id, name))
                if v is not None:
                    return self.settle(v, st)
                f = f.closure
        g = self.module_global(fr.module, name)
        if g is not None:
            return g
        if name in BUILTINS:
            return Ext("builtins." + name)
        return self.new_arr(st, T("sym", "?" + name), node=e, fr=fr)

    def settle(self, v, st):
        """Drop the alternatives the facts rule out."""
        n = 0
        while isinstance(v, PhiV) and n < 60:
            d = self.decide(v.cond, st)
            if d is None:
                if v.a is UNBOUND:
                    return v.b
                if v.b is UNBOUND:
                    return v.a
                return v
            v = v.a if d else v.b
            n += 1
        return v

    def modframe(self, module):
        fr = self.modframes.get(module.name)
        if fr is None:
            fi = FuncInfo.__new__(FuncInfo)
            fi.node, fi.module, fi.cls, fi.parent = module.tree, module, None, None
            fi.name, fi.qualname, fi.kind, fi.is_generator, fi.abstract = "<module>", module.name, "function", False, False
            fr = Frame(fi, module=module)
            self.modframes[module.name] = fr
        return fr

    def module_global(self, module, name):
        key = (module.name, name)
        if key in self.globals_cache:
            return self.globals_cache[key]
        r = self.p.resolve_in(module, name)
        v = None
        if r is not None:
            v = self.resolved(r)
        self.globals_cache[key] = v
        return v

    def resolved(self, r):
        kind, x = r
        if kind == "module":
            return Mod(x)
        if kind == "func":
            return Fn(x)
        if kind == "class":
            return Cl(x)
        if kind == "ext":
            return self.ext(x)
        if kind == "assign":
            m, n = x
            key = (m.name, n)
            if key in self.globals_cache and self.globals_cache[key] is not None:
                return self.globals_cache[key]
            if key in self.mod_evaluating:
                return self.new_arr(self.root, T("sym", "%s.%s" % key), label="global:%s.%s" % key)
            self.mod_evaluating.add(key)
            rec, self.recording = self.recording, False
            try:
                v = self.ev_global(m, n)
            finally:
                self.recording = rec
                self.mod_evaluating.discard(key)
            if isinstance(v, (Arr, Seq)) and self.cells[v.cid].label is None:
                self.cells[v.cid].label = "global:%s.%s" % key
            self.globals_cache[key] = v
            return v
        return None

    def ev_global(self, m, n):
        expr = m.assigns[n][-1]
        fr = self.modframe(m)
        if isinstance(expr, ast.Call):
            q = dotted(expr.func)
            if q and q.split(".")[-1] == "namedtuple" and len(expr.args) >= 2:
                nt = self._namedtuple(expr, m, n)
                if nt is not None:
                    return nt
        if len(m.assigns[n]) > 1:
            key = (m.name, n)
            prev = m.assigns[n]
            v = None
            for ex in prev:
                try:
                    v = self.ev(ex, self.root, fr)
                except Dead:
                    continue
                self.globals_cache[key] = v
            self.globals_cache.pop(key, None)
            return v
        try:
            return self.ev(expr, self.root, fr)
        except Dead:
            return self.new_arr(self.root, T("sym", "%s.%s" % (m.name, n)))

    def _namedtuple(self, expr, m, n):
        a = expr.args[1]
        names = None
        if isinstance(a, (ast.List, ast.Tuple)) and all(isinstance(x, ast.Constant) for x in a.elts):
            names = [x.value for x in a.elts]
        elif isinstance(a, ast.Constant) and isinstance(a.value, str):
            names = a.value.replace(",", " ").split()
        if not names:
            return None
        src = "class %s:\n    def __init__(self, %s):\n" % (n, ", ".join(names))
        src += "".join("        self.%s = %s\n" % (x, x) for x in names)
        node = ast.parse(src).body[0]
        for sub in ast.walk(node):
            if hasattr(sub, "lineno"):
                sub.lineno = expr.lineno
        return Cl(ClassInfo(node, m, self.p))

    def ext(self, q):
        q = X.RENAME.get(q, q)
        if q == "numpy.nan":
            return K(float("nan")) if False else Ext("numpy.nan")
        return Ext(q)

    # --------------------------------------------------------- containers
    def _elts(self, elts, st, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st, fr)
                items = self.iter_literal(v, st)
                if items is None:
                    return None, out + [self.iter_elem(v, st, fr, x)]
                out.extend(items)
            else:
                out.append(self.ev(x, st, fr))
        return out, out

    def ev_Tuple(self, e, st, fr):
        items, part = self._elts(e.elts, st, fr)
        if items is None:
            return self.new_seq_of(st, "tuple", self._summ(part, st, st, st), T("opaque", "starred"), e, fr)
        return self.new_seq(st, "tuple", items, e, fr)

    def ev_List(self, e, st, fr):
        items, part = self._elts(e.elts, st, fr)
        if items is None:
            return self.new_seq_of(st, "list", self._summ(part, st, st, st), T("opaque", "starred"), e, fr)
        return self.new_seq(st, "list", items, e, fr)

    def ev_Set(self, e, st, fr):
        items, part = self._elts(e.elts, st, fr)
        return self.new_seq(st, "set", items if items is not None else part, e, fr)

    def ev_Dict(self, e, st, fr):
        items = []
        summary = None
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.ev(v, st, fr)
                di = self.seq_items(d, st)
                if di is not None:
                    items.extend(di)
                else:
                    summary = d
            else:
                items.append((self.ev(k, st, fr), self.ev(v, st, fr)))
        # later keys win
        seen = {}
        res = []
        for kv in items:
            if isinstance(kv[0], K):
                try:
                    if kv[0].v in seen:
                        res[seen[kv[0].v]] = kv
                        continue
                    seen[kv[0].v] = len(res)
                except TypeError:
                    pass
            res.append(kv)
        if summary is not None:
            vals = [v for _, v in res]
            return self.new_seq_of(st, "dict", self._summ(vals + [self.iter_elem(summary, st, fr, e)], st, st, st),
                                   T("opaque", "dictmerge", self.term(summary, st)), e, fr,
                                   keys=self._summ([k for k, _ in res], st, st, st))
        return self.new_seq(st, "dict", res, e, fr)

    def ev_JoinedStr(self, e, st, fr):
        ts = []
        for x in e.values:
            if isinstance(x, ast.FormattedValue):
                ts.append(self.term(self.ev(x.value, st, fr), st))
            else:
                ts.append(const(x.value))
        return self.new_arr(st, T("fstr", *ts), node=e, fr=fr)

    def ev_FormattedValue(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def ev_Lambda(self, e, st, fr):
        fi = FuncInfo(e, fr.module, cls=None, parent=fr.fi if fr.fi.name != "<module>" else None)
        fi.cls_ctx = getattr(fr.fi, "cls_ctx", None) or fr.fi.cls
        return Fn(fi, fr)

    def ev_NamedExpr(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        self.assign(e.target, v, st, fr)
        return v

    def ev_Starred(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def ev_Await(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def ev_Yield(self, e, st, fr):
        v = self.ev(e.value, st, fr) if e.value is not None else K(None)
        if fr.yields is not None:
            fr.yields.append((v, State(st)))
        return self.new_arr(st, T("opaque", "sent"), node=e, fr=fr)

    # ---------------------------------------------------------- operators
    def ev_UnaryOp(self, e, st, fr):
        v = self.ev(e.operand, st, fr)
        if isinstance(e.op, ast.Not):
            return self.res(st, mk_not(self.cond(v, st)), e, fr)
        return self.res(st, mk_un(_UN[type(e.op)], self.term(v, st)), e, fr)

    def ev_BinOp(self, e, st, fr):
        a = self.ev(e.left, st, fr)
        b = self.ev(e.right, st, fr)
        return self.binop(type(e.op).__name__, a, b, st, fr, e)

    def binop(self, op, a, b, st, fr, e):
        if op == "Add" and isinstance(a, Seq) and isinstance(b, Seq) and a.kind == b.kind:
            ia, ib = self.seq_items(a, st), self.seq_items(b, st)
            if ia is not None and ib is not None:
                return self.new_seq(st, a.kind, list(ia) + list(ib), e, fr)
            return self.new_seq_of(st, a.kind, self._summ([x for x in (self.iter_elem(a, st, fr, e),
                                                                     self.iter_elem(b, st, fr, e)) if x is not None],
                                                         st, st, st),
                                   T("bin", "Add", self.term(a, st), self.term(b, st)), e, fr)
        if op == "Mult" and isinstance(a, Seq) and isinstance(b, K) and isinstance(b.v, int):
            ia = self.seq_items(a, st)
            if ia is not None and 0 <= len(ia) * b.v <= 40:
                return self.new_seq(st, a.kind, list(ia) * b.v, e, fr)
        meth = {"Add": "__add__", "Sub": "__sub__", "Mult": "__mul__", "Div": "__truediv__", "BitOr": "__or__",
                "BitAnd": "__and__"}.get(op)
        if isinstance(a, Obj) and meth and self.objs[a.oid].cls.lookup(meth):
            return self.call_method(a, meth, [b], {}, st, fr, e)
        ta, tb = self.term(a, st), self.term(b, st)
        if op in ("Div", "FloorDiv", "Mod"):
            self.event("div", e, fr, st, num=ta, den=tb, op=op)
        self.event("binop", e, fr, st, op=op, left=ta, right=tb)
        return self.res(st, mk_bin(op, ta, tb), e, fr)

    def ev_BoolOp(self, e, st, fr):
        isand = isinstance(e.op, ast.And)
        vals, conds = [], []
        save = st.facts
        res = None
        for i, x in enumerate(e.values):
            try:
                v = self.ev(x, st, fr)
            except Dead:
                if i == 0:
                    raise
                # evaluating this operand always raises: the earlier operands decided
                st.facts = save
                for c in conds:
                    pass
                c = mk_and(*conds) if isand else mk_or(*conds)
                st.assume(c, not isand)
                break
            c = self.cond(v, st)
            d = self.decide(c, st)
            vals.append(v)
            conds.append(c)
            if d is not None and d != isand:
                # short circuit decided here
                res = v
                break
            if d is None:
                st.assume(c, isand)
        st.facts = save
        if res is not None and len(vals) == 1:
            return res
        op = mk_and if isand else mk_or
        allbool = all(is_bool(self.term(v, st)) or isinstance(v, K) and isinstance(v.v, bool) for v in vals)
        if allbool:
            ts = [c for c in conds]
            # drop operands that are known
            return self.res(st, op(*ts), e, fr)
        # value semantics
        r = vals[-1]
        for v, c in zip(reversed(vals[:-1]), reversed(conds[:-1])):
            d = self.decide(c, st)
            if d is not None:
                r = r if d == isand else v
                continue
            r = self.join_val(c, r, v, st, st, st) if isand else self.join_val(c, v, r, st, st, st)
        return r

    def ev_IfExp(self, e, st, fr):
        c = self.cond(self.ev(e.test, st, fr), st)
        d = self.decide(c, st)
        if d is not None:
            return self.ev(e.body if d else e.orelse, st, fr)
        return self.both(c, st, lambda s: self.ev(e.body, s, fr), lambda s: self.ev(e.orelse, s, fr))

    def both(self, c, st, fa, fb):
        """Evaluate fa under c and fb under not c; join into st."""
        A, B = st.fork(c, True), st.fork(c, False)
        va = vb = None
        da = db = None
        try:
            va = fa(A)
        except Dead as x:
            da = x
        try:
            vb = fb(B)
        except Dead as x:
            db = x
        if da and db:
            raise da
        if da:
            self.commit(st, B)
            return vb
        if db:
            self.commit(st, A)
            return va
        J = self.join2(st, c, A, B)
        r = self.join_val(c, va, vb, A, B, J)
        self.commit(st, J)
        return r

    def ev_Compare(self, e, st, fr):
        left = self.ev(e.left, st, fr)
        out = []
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, st, fr)
            out.append(self.compare(_CMP[type(op)], left, right, st, fr, e))
            left = right
        if len(out) == 1:
            return self.res(st, out[0], e, fr)
        return self.res(st, mk_and(*out), e, fr)

    def compare(self, op, a, b, st, fr, e):
        if op in ("is", "is not") or op in ("==", "!="):
            r = self._ident(a, b, st, op)
            if r is not None:
                return r if op in ("is", "==") else mk_not(r)
        if op in ("in", "not in"):
            r = self._contains(a, b, st, fr, e)
            if r is not None:
                return r if op == "in" else mk_not(r)
        ta, tb = self.term(a, st), self.term(b, st)
        self.event("compare", e, fr, st, op=op, left=ta, right=tb)
        return mk_cmp(op, ta, tb)

    def _ident(self, a, b, st, op):
        a, b = self.settle(a, st), self.settle(b, st)
        if isinstance(a, PhiV):
            x = self._ident(a.a, b, st, op)
            y = self._ident(a.b, b, st, op)
            if a.a is UNBOUND:
                return y
            if a.b is UNBOUND:
                return x
            if x is not None and y is not None:
                return mk_phi(a.cond, x, y)
            return None
        if isinstance(b, PhiV):
            return self._ident(b, a, st, op)
        if isinstance(b, K) and b.v is None or isinstance(a, K) and a.v is None:
            o = a if isinstance(b, K) and b.v is None else b
            if isinstance(o, K):
                return const(o.v is None)
            if isinstance(o, Arr):
                if self.cells[o.cid].fresh:
                    return FALSE
                return mk_is(self.term(o, st), NONE)
            return FALSE
        ents = (Cl, Fn, Mod, Ext)
        if isinstance(a, ents) and isinstance(b, ents):
            return const(self.same(a, b))
        if isinstance(a, EnumM) and isinstance(b, EnumM):
            return const(a.cls is b.cls and a.name == b.name)
        if op.startswith("is") and isinstance(a, Obj) and isinstance(b, Obj):
            return const(a.oid == b.oid)
        if isinstance(a, Seq) and isinstance(b, Seq):
            ia, ib = self.seq_items(a, st), self.seq_items(b, st)
            if op in ("==", "!=") and ia is not None and ib is not None and len(ia) != len(ib):
                return FALSE
        return None

    def _contains(self, a, b, st, fr, e):
        if isinstance(b, ObjDict):
            if isinstance(a, K):
                self.event("hasattr", e, fr, st, obj=Obj(b.oid), name=a.v)
                return self.hasattr_term(Obj(b.oid), a.v, st)
            return None
        if isinstance(b, Seq):
            items = self.seq_items(b, st)
            if items is not None:
                keys = [k[0] if isinstance(k, tuple) else k for k in items]
                alts = []
                for k in keys:
                    r = self._ident(a, k, st, "==")
                    if r is None:
                        r = mk_cmp("==", self.term(a, st), self.term(k, st))
                    alts.append(r)
                return mk_or(*alts)
        if isinstance(b, Obj) and self.objs[b.oid].cls.lookup("__contains__"):
            return self.cond(self.call_method(b, "__contains__", [a], {}, st, fr, e), st)
        return None

    # ----------------------------------------------------------- attributes
    def ev_Attribute(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        return self.getattr(v, e.attr, st, fr, e)

    def getattr(self, v, name, st, fr, e, default=None):
        v = self.settle(v, st)
        if isinstance(v, Obj):
            return self.obj_getattr(v, name, st, fr, e, default)
        if isinstance(v, Mod):
            r = self.module_global(v.m, name)
            if r is not None:
                return r
            return self.new_arr(st, T("sym", v.m.name + "." + name), node=e, fr=fr)
        if isinstance(v, Ext):
            return self.ext(v.q + "." + name)
        if isinstance(v, Cl):
            return self.class_getattr(v, name, st, fr, e, default)
        if isinstance(v, Sup):
            hit = self.objs[v.selfv.oid].cls.lookup(name, after=v.cls) if isinstance(v.selfv, Obj) else (
                v.cls.lookup(name, after=v.cls))
            if hit and hit[0] == "method":
                if hit[2].kind == "property":
                    return self.call_func(Fn(hit[2], None, v.selfv), [], {}, st, fr, e)
                if hit[2].kind == "staticmethod":
                    return Fn(hit[2])
                return Fn(hit[2], None, v.selfv)
            return ExtMeth(v.selfv, name)
        if isinstance(v, PhiV):
            if v.a is UNBOUND:
                return self.getattr(v.b, name, st, fr, e, default)
            if v.b is UNBOUND:
                return self.getattr(v.a, name, st, fr, e, default)
            return self.both(v.cond, st, lambda s: self.getattr(v.a, name, s, fr, e, default),
                             lambda s: self.getattr(v.b, name, s, fr, e, default))
        if isinstance(v, EnumM):
            if name == "value":
                return v.val
            if name == "name":
                return K(v.name)
        if isinstance(v, Fn) and name in ("__name__", "__doc__"):
            return K(v.info.name)
        if isinstance(v, K) and v.v is None:
            if name.startswith("__"):
                return self.new_arr(st, T("attr", NONE, name), node=e, fr=fr)
            self.event("raise", e, fr, st, exc="AttributeError", implicit=True, on="None.%s" % name)
            raise Dead("AttributeError", e)
        if isinstance(v, (Seq, ObjDict, K, ExtMeth, Partial, Fn)):
            return ExtMeth(v, name)
        # opaque data
        t = self.term(v, st)
        self.event("dataattr", e, fr, st, recv=t, name=name, roots=frozenset(self.roots(v, st)))
        if name == "values" or name == "_values":
            return self.new_arr(st, None, [(v.cid, "alias", None)], node=e, fr=fr)
        if name in ("shape", "size", "ndim", "dtype", "index", "columns", "empty"):
            return self.new_arr(st, T("attr", t, name), node=e, fr=fr)
        if name in ("T", "flat", "loc", "iloc", "at", "iat", "array"):
            return self.new_arr(st, T("attr", t, name), [(v.cid, "may", None)], node=e, fr=fr)
        return ExtMeth(v, name)

    def hasattr_term(self, v, name, st):
        v = self.settle(v, st)
        if isinstance(v, PhiV):
            if v.a is UNBOUND or v.b is UNBOUND:
                return self.hasattr_term(v.b if v.a is UNBOUND else v.a, name, st)
            return mk_phi(v.cond, self.hasattr_term(v.a, name, st), self.hasattr_term(v.b, name, st))
        if isinstance(v, Obj):
            m = self.objs[v.oid]
            f = st.get(("f", v.oid, name))
            if f is not None:
                if f is UNBOUND:
                    return const(bool(m.cls.lookup(name)))
                return self._bound_term(f, st)
            if m.cls.lookup(name) or self._ext_attr(m.cls, name):
                return TRUE
            if m.closed:
                return FALSE
            return T("hasattr", T("obj", v.oid), name)
        if isinstance(v, K) and v.v is None:
            return const(hasattr(None, name))
        if isinstance(v, Cl):
            return const(bool(v.info.lookup(name)))
        return T("hasattr", self.term(v, st), name)

    def _bound_term(self, f, st):
        f = self.settle_keep(f, st)
        if isinstance(f, PhiV):
            a = FALSE if f.a is UNBOUND else self._bound_term(f.a, st)
            b = FALSE if f.b is UNBOUND else self._bound_term(f.b, st)
            return mk_phi(f.cond, a, b)
        return const(f is not UNBOUND)

    def settle_keep(self, v, st):
        while isinstance(v, PhiV):
            d = self.decide(v.cond, st)
            if d is None:
                return v
            v = v.a if d else v.b
        return v

    def _ext_attr(self, cls, name):
        """Attributes that come from library base classes."""
        if name in ("get_params", "set_params", "__class__", "__dict__", "__doc__", "_get_param_names", "__module__"):
            return True
        eb = cls.ext_bases()
        if name == "score" and any("Mixin" in b for b in eb):
            return True
        if name == "fit_transform" and any("TransformerMixin" in b for b in eb):
            return True
        if any("rv_continuous" in b for b in eb) and name in ("ppf", "cdf", "pdf", "rvs", "_rvs", "a", "b"):
            return True
        if any(b.endswith("Exception") or b.endswith("Error") for b in eb):
            return True
        return False

    def obj_getattr(self, v, name, st, fr, e, default=None):
        m = self.objs[v.oid]
        key = ("f", v.oid, name)
        f = st.get(key)
        if f is not None:
            s = self.settle_keep(f, st)
            maybe = isinstance(s, PhiV) and (s.a is UNBOUND or s.b is UNBOUND)
            if s is not UNBOUND:
                if maybe:
                    if default is not None:
                        c = s.cond
                        return self.join_val(c, default if s.a is UNBOUND else s.a, default if s.b is UNBOUND else s.b,
                                             st, st, st)
                    s = s.b if s.a is UNBOUND else s.a
                self.event("getattr", e, fr, st, obj=v, name=name, value=s)
                return s
        hit = m.cls.lookup(name)
        if hit:
            kind, owner, thing = hit
            if kind == "method":
                if thing.kind == "property":
                    return self.call_func(Fn(thing, None, v), [], {}, st, fr, e)
                if thing.kind == "staticmethod":
                    return Fn(thing)
                if thing.kind == "classmethod":
                    return Fn(thing, None, Cl(m.cls))
                return Fn(thing, None, v)
            return self.class_attr_value(owner, name, thing)
        if name == "__class__":
            return Cl(m.cls)
        if name == "__dict__":
            return ObjDict(v.oid)
        if self._ext_attr(m.cls, name):
            return ExtMeth(v, name)
        if default is not None and m.closed:
            return default
        if m.closed:
            self.event("raise", e, fr, st, exc="AttributeError", implicit=True, on=name, obj=v)
            raise Dead("AttributeError", e)
        r = self.new_arr(st, T("sym", "%s.%s" % (m.label or m.cls.name, name)), label="%s.%s" % (m.label, name) if m.label
                         else None, node=e, fr=fr)
        st.put(key, r)
        self.event("getattr", e, fr, st, obj=v, name=name, value=r)
        return r

    def class_attr_value(self, owner, name, expr):
        key = ("cls", owner.qualname, name)
        if key in self.globals_cache:
            return self.globals_cache[key]
        fr = self.modframe(owner.module)
        cfr = Frame(fr.fi, module=owner.module)
        for n, ex in owner.attrs.items():
            if n == name:
                break
            if isinstance(ex, ast.Constant):
                self.root.put(("v", cfr.id, n), K(ex.value))
        try:
            rec, self.recording = self.recording, False
            v = self.ev(expr, self.root, cfr)
        except Dead:
            v = self.new_arr(self.root, T("sym", "%s.%s" % (owner.qualname, name)))
        finally:
            self.recording = rec
        if isinstance(v, (Arr, Seq)) and self.cells[v.cid].label is None:
            self.cells[v.cid].label = "classattr:%s.%s" % (owner.qualname, name)
        if any(isinstance(b, str) and b.split(".")[-1] in ("Enum", "IntEnum", "IntFlag", "Flag") for b in owner.mro):
            v = EnumM(owner, name, v)
        self.globals_cache[key] = v
        return v

    def class_getattr(self, v, name, st, fr, e, default=None):
        hit = v.info.lookup(name)
        if hit:
            kind, owner, thing = hit
            if kind == "method":
                if thing.kind == "classmethod":
                    return Fn(thing, None, v)
                return Fn(thing)
            return self.class_attr_value(owner, name, thing)
        if name == "__name__":
            return K(v.info.name)
        if default is not None:
            return default
        return ExtMeth(v, name)

    # ----------------------------------------------------------- subscripts
    def ev_Slice(self, e, st, fr):
        parts = [self.term(self.ev(x, st, fr), st) if x is not None else NONE for x in (e.lower, e.upper, e.step)]
        return self.new_arr(st, T("slice", *parts), node=e, fr=fr)

    def ev_Index(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def ev_Subscript(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        i = self.ev(e.slice, st, fr)
        return self.getitem(v, i, st, fr, e)

    def getitem(self, v, i, st, fr, e):
        v = self.settle(v, st)
        if isinstance(v, PhiV):
            if UNBOUND in (v.a, v.b):
                return self.getitem(v.b if v.a is UNBOUND else v.a, i, st, fr, e)
            return self.both(v.cond, st, lambda s: self.getitem(v.a, i, s, fr, e),
                             lambda s: self.getitem(v.b, i, s, fr, e))
        if isinstance(v, ObjDict):
            if isinstance(i, K):
                return self.obj_getattr(Obj(v.oid), i.v, st, fr, e)
            return self.new_arr(st, T("opaque", "objdict"), node=e, fr=fr)
        if isinstance(v, Obj):
            if self.objs[v.oid].cls.lookup("__getitem__"):
                return self.call_method(v, "__getitem__", [i], {}, st, fr, e)
            # namedtuple objects and the like
            return self.new_arr(st, T("sub", self.term(v, st), self.term(i, st)), node=e, fr=fr)
        if isinstance(v, Seq):
            r = self.seq_getitem(v, i, st, fr, e)
            if r is not None:
                return r
        if isinstance(v, K) and v.v is None:
            self.event("raise", e, fr, st, exc="TypeError", implicit=True, on="None[...]")
            raise Dead("TypeError", e)
        it = self.term(i, st)
        if isinstance(v, Arr):
            self.event("subscript", e, fr, st, recv=self.term(v, st), idx=it, roots=frozenset(self.roots(v, st)))
            t = self.term(v, st)
            if self.copying_index(it, st):
                return self.new_arr(st, mk_sub(t, it), node=e, fr=fr)
            return self.new_arr(st, None, [(v.cid, "view", it)], node=e, fr=fr)
        return self.res(st, mk_sub(self.term(v, st), it), e, fr)

    def copying_index(self, it, st):
        """True when indexing with this value makes a copy (boolean or integer arrays)."""
        if it.op in ("cmp", "not", "and", "or", "list", "comp"):
            return True
        if is_bool(it):
            return True
        if it.op == "call" and (it.args[0] in ("numpy.argsort", "numpy.where", "numpy.nonzero", "numpy.arange",
                                               "numpy.flatnonzero", "numpy.unique", "cast", "numpy.searchsorted",
                                               "numpy.digitize", "numpy.lexsort", "numpy.argwhere",
                                               "numpy.logical_not", "numpy.r_", "numpy.argmin")):
            return True
        if it.op == "sub" and it.args[0].op == "call" and it.args[0].args[0] in ("numpy.where", "numpy.nonzero"):
            return True
        if it.op == "phi":
            return self.copying_index(it.args[1], st) and self.copying_index(it.args[2], st)
        if it.op == "tuple":
            return any(self.copying_index(x, st) for x in it.args)
        return False

    def seq_getitem(self, v, i, st, fr, e):
        c = self.content(v.cid, st)
        if not isinstance(c, tuple):
            return None
        if v.kind == "dict":
            if c[0] == "lit":
                if isinstance(i, (K, Cl, EnumM, Ext)):
                    for k, x in c[1]:
                        r = self._ident(k, i, st, "==")
                        if r is None and isinstance(k, K) and isinstance(i, K):
                            try:
                                r = const(k.v == i.v)
                            except Exception:
                                r = None
                        if r is TRUE:
                            return self.settle(x, st)
                    if all(isinstance(k, (K, Cl, EnumM, Ext)) for k, _ in c[1]):
                        self.event("raise", e, fr, st, exc="KeyError", implicit=True, on=repr(i))
                        raise Dead("KeyError", e)
                it = self.term(i, st)
                r = None
                for k, x in c[1]:
                    if x is UNBOUND:
                        continue
                    cnd = mk_cmp("==", it, self.term(k, st))
                    d = self.decide(cnd, st)
                    if d is True:
                        return x
                    if d is False:
                        continue
                    r = x if r is None else self.join_val(cnd, x, r, st, st, st)
                if r is not None:
                    return r
                return self.new_arr(st, mk_sub(self.term(v, st), it), node=e, fr=fr)
            if c[1] is not None and not isinstance(c[1], (Arr, K)):
                return c[1]
            return self.new_arr(st, mk_sub(self.term(v, st), self.term(i, st)),
                                [(c[1].cid, "may", None)] if isinstance(c[1], Arr) else [], node=e, fr=fr)
        if c[0] == "lit":
            if isinstance(i, K) and type(i.v) is int:
                if -len(c[1]) <= i.v < len(c[1]):
                    return self.settle(c[1][i.v], st)
                self.event("raise", e, fr, st, exc="IndexError", implicit=True, on=str(i.v))
                raise Dead("IndexError", e)
            it = self.term(i, st)
            if it.op == "slice" and all(a.op == "const" and (a.args[0] is None or type(a.args[0]) is int)
                                        for a in it.args):
                sl = slice(*[a.args[0] for a in it.args])
                return self.new_seq(st, v.kind, list(c[1])[sl], e, fr)
            if c[1]:
                r = self._summ(list(c[1]), st, st, st)
                if isinstance(r, (Arr, K)):
                    bases = [(x.cid, "may", None) for x in c[1] if isinstance(x, Arr)]
                    return self.new_arr(st, mk_sub(self.term(v, st), it), bases, node=e, fr=fr)
                return r
            return self.new_arr(st, mk_sub(self.term(v, st), it), node=e, fr=fr)
        elem = c[1]
        it = self.term(i, st)
        if it.op == "slice":
            return self.new_seq_of(st, v.kind, elem, T("sub", self.term(v, st), it), e, fr)
        if elem is not None and not isinstance(elem, (Arr, K)):
            return elem
        return self.new_arr(st, T("sub", self.term(v, st), it),
                            [(elem.cid, "may", None)] if isinstance(elem, Arr) else [], node=e, fr=fr)

    # ------------------------------------------------------- comprehensions
    def ev_ListComp(self, e, st, fr):
        return self.comp(e, "list", st, fr)

    def ev_SetComp(self, e, st, fr):
        return self.comp(e, "set", st, fr)

    def ev_GeneratorExp(self, e, st, fr):
        return self.comp(e, "list", st, fr)

    def ev_DictComp(self, e, st, fr):
        return self.comp(e, "dict", st, fr)

    def comp(self, e, kind, st, fr):
        cfr = Frame(fr.fi, closure=fr, selfv=fr.selfv, stack=fr.stack, module=fr.module)
        cfr.globals = fr.globals
        acc = []
        summ = []

        def elt(s, terms):
            if kind == "dict":
                v = (self.ev(e.key, s, cfr), self.ev(e.value, s, cfr))
            else:
                v = self.ev(e.elt, s, cfr)
            (summ if terms else acc).append((v, tuple(terms)))

        def gen(i, s, terms):
            if i == len(e.generators):
                elt(s, terms)
                return
            g = e.generators[i]
            it = self.ev(g.iter, s, cfr)
            lits = self.iter_literal(it, s)
            if lits is not None and len(lits) <= 40:
                for x in lits:
                    self.assign(g.target, x, s, cfr)
                    save = s.facts
                    skip = False
                    ct = []
                    for cnd in g.ifs:
                        c = self.cond(self.ev(cnd, s, cfr), s)
                        d = self.decide(c, s)
                        if d is False:
                            skip = True
                            break
                        if d is None:
                            ct.append(c)
                            s.assume(c, True)
                    if not skip:
                        gen(i + 1, s, terms + ct)
                    s.facts = save
                return
            x = self.iter_elem(it, s, cfr, g.iter)
            tt = [self.term(it, s)]
            if x is None:
                x = self.new_arr(s, T("elem", tt[0]), node=g.iter, fr=cfr)
            self.assign(g.target, x, s, cfr)
            save = s.facts
            for cnd in g.ifs:
                c = self.cond(self.ev(cnd, s, cfr), s)
                d = self.decide(c, s)
                tt.append(c)
                if d is None:
                    s.assume(c, True)
            gen(i + 1, s, terms + tt)
            s.facts = save

        gen(0, st, [])
        if not summ:
            items = [v for v, _ in acc]
            return self.new_seq(st, kind, items, e, fr)
        vals = [v for v, _ in acc] + [v for v, _ in summ]
        src = T("over", *[t for _, ts in summ[:4] for t in ts])
        if kind == "dict":
            return self.new_seq_of(st, "dict", self._summ([v for _, v in vals], st, st, st), src, e, fr,
                                   keys=self._summ([k for k, _ in vals], st, st, st))
        return self.new_seq_of(st, kind, self._summ(vals, st, st, st), src, e, fr)

    # ------------------------------------------------------------ iteration
    def iter_literal(self, v, st):
        """The list of element values when statically known, else None."""
        v = self.settle(v, st)
        if isinstance(v, Seq):
            c = self.content(v.cid, st)
            if isinstance(c, tuple) and c[0] == "lit":
                if v.kind == "dict":
                    return [k for k, _ in c[1]]
                return list(c[1])
            return None
        if isinstance(v, K) and isinstance(v.v, str) and len(v.v) <= 20:
            return [K(ch) for ch in v.v]
        if isinstance(v, Arr):
            t = self.term(v, st)
            if t.op == "call" and t.args[0] == "builtins.range":
                vals = [a.args[0] for a in t.args[1:] if a.op == "const"]
                if len(vals) == len(t.args) - 1 and all(type(x) is int for x in vals):
                    r = range(*vals)
                    if len(r) <= 16:
                        return [K(x) for x in r]
        return None

    def iter_elem(self, v, st, fr, e):
        """A value standing for any element."""
        v = self.settle(v, st)
        if isinstance(v, Seq):
            c = self.content(v.cid, st)
            if isinstance(c, tuple):
                if c[0] == "lit":
                    items = [k[0] if v.kind == "dict" else k for k in c[1]]
                    r = self._summ(items, st, st, st)
                    return r
                if v.kind == "dict":
                    return c[3]
                if c[1] is not None:
                    return c[1]
        if isinstance(v, PhiV):
            x = self.iter_elem(v.a, st, fr, e) if v.a is not UNBOUND else None
            y = self.iter_elem(v.b, st, fr, e) if v.b is not UNBOUND else None
            if x is None or y is None:
                return x if y is None else y
            return self.join_val(v.cond, x, y, st, st, st)
        if isinstance(v, Obj):
            if self.objs[v.oid].cls.lookup("__iter__"):
                r = self.call_method(v, "__iter__", [], {}, st, fr, e)
                if not self.same(r, v):
                    return self.iter_elem(r, st, fr, e)
        if isinstance(v, K) and v.v is None:
            self.event("raise", e, fr, st, exc="TypeError", implicit=True, on="iterate None")
            raise Dead("TypeError", e)
        t = self.term(v, st)
        if t.op == "list" or t.op == "tuple":
            pass
        return self.new_arr(st, T("elem", t), [(v.cid, "may", None)] if isinstance(v, (Arr, Seq)) else [], node=e, fr=fr)
