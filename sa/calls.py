"""Calls: inlining of package code, models of library code."""
import ast

from .terms import T, const, TRUE, FALSE, NONE
from .build import mk_not, mk_and, mk_or, mk_phi, mk_sub, mk_upd, mk_cmp, mk_is, mk_bin, mk_un, mk_call, is_bool
from .state import (K, Fn, Cl, Mod, Ext, Sup, Obj, ObjDict, EnumM, Seq, Arr, ExtMeth, Partial, PhiV, UNBOUND, State)
from .core import Dead, Frame
from .program import FuncInfo, ClassInfo
from .expr import ExprMixin
from . import extmodel as X

SUPPRESS = ("_logger", "logging", "warnings")


class CallMixin(ExprMixin):
    #: hook(fi, selfv, args, kwargs, st, fr, node) -> Val or None; lets a rule replace a package function
    call_hook = None
    #: called with every library call: hook(q, args, kwargs, st, fr, node)
    ext_hook = None
    no_inline = frozenset()

    def ev_Call(self, e, st, fr):
        f = e.func
        # super() forms
        if isinstance(f, ast.Name) and f.id == "super" and st.get(("v", fr.id, "super")) is None:
            return self.ev_super(e, st, fr)
        fv = self.ev(f, st, fr)
        args = []
        summary_star = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st, fr)
                items = self.iter_literal(v, st)
                if items is None:
                    summary_star.append(v)
                else:
                    args.extend(items)
            else:
                args.append(self.ev(a, st, fr))
        kwargs = {}
        star_kw = []
        for k in e.keywords:
            v = self.ev(k.value, st, fr)
            if k.arg is None:
                items = self.seq_items(v, st)
                if items is not None and all(isinstance(x[0], K) for x in items):
                    for kk, vv in items:
                        kwargs[kk.v] = vv
                else:
                    star_kw.append(v)
            else:
                kwargs[k.arg] = v
        return self.call(fv, args, kwargs, st, fr, e, summary_star, star_kw)

    def ev_super(self, e, st, fr):
        if len(e.args) == 2:
            c = self.ev(e.args[0], st, fr)
            s = self.ev(e.args[1], st, fr)
            if isinstance(c, Cl):
                return Sup(c.info, s)
        f = fr
        while f is not None:
            if f.fi.cls is not None and f.selfv is not None:
                return Sup(f.fi.cls, f.selfv)
            f = f.closure
        return self.new_arr(st, T("opaque", "super"), node=e, fr=fr)

    def call_method(self, recv, name, args, kwargs, st, fr, e):
        f = self.getattr(recv, name, st, fr, e)
        return self.call(f, args, kwargs, st, fr, e)

    def call(self, fv, args, kwargs, st, fr, e, star=(), star_kw=()):
        fv = self.settle(fv, st)
        if isinstance(fv, PhiV):
            if UNBOUND in (fv.a, fv.b):
                return self.call(fv.b if fv.a is UNBOUND else fv.a, args, kwargs, st, fr, e, star, star_kw)
            return self.both(fv.cond, st, lambda s: self.call(fv.a, args, kwargs, s, fr, e, star, star_kw),
                             lambda s: self.call(fv.b, args, kwargs, s, fr, e, star, star_kw))
        if isinstance(fv, Partial):
            kw = dict(fv.kwargs)
            kw.update(kwargs)
            return self.call(fv.fn, list(fv.args) + list(args), kw, st, fr, e, star, star_kw)
        if isinstance(fv, Fn):
            return self.call_func(fv, args, kwargs, st, fr, e, star, star_kw)
        if isinstance(fv, Cl):
            return self.instantiate(fv.info, args, kwargs, st, fr, e, star, star_kw)
        if isinstance(fv, Obj):
            if self.objs[fv.oid].cls.lookup("__call__"):
                return self.call_method(fv, "__call__", args, kwargs, st, fr, e)
        if isinstance(fv, Ext):
            return self.call_ext(fv.q, args, kwargs, st, fr, e, star, star_kw)
        if isinstance(fv, ExtMeth):
            return self.call_ext_method(fv, args, kwargs, st, fr, e, star, star_kw)
        if isinstance(fv, K) and fv.v is None:
            self.event("raise", e, fr, st, exc="TypeError", implicit=True, on="call None")
            raise Dead("TypeError", e)
        # unknown callable (a parameter): opaque, changes nothing
        t = self.term(fv, st)
        ts = [self.term(a, st) for a in args]
        self.event("ucall", e, fr, st, fn=t, args=list(args), kwargs=dict(kwargs), terms=ts,
                   now={id(a): self.term(a, st) for a in list(args) + list(kwargs.values())})
        kw = [T("kw", k, self.term(v, st)) for k, v in sorted(kwargs.items())]
        self.run_callbacks(args, kwargs, st, fr, e)
        return self.new_arr(st, T("apply", t, *(ts + kw)), node=e, fr=fr)

    # ------------------------------------------------------- package calls
    def call_func(self, fv, args, kwargs, st, fr, e, star=(), star_kw=()):
        fi = fv.info
        selfv = fv.selfv
        if self.call_hook is not None:
            r = self.call_hook(fi, selfv, args, kwargs, st, fr, e)
            if r is not None:
                return r
        depth = len(fr.stack)
        rec = sum(1 for s in fr.stack if s[0] is fi) + (1 if fr.fi is fi else 0)
        if depth >= self.MAX_DEPTH or rec >= 2 or fi.qualname in self.no_inline:
            self.opaque_calls.add(fi.qualname)
            ts = [self.term(a, st) for a in args] + [T("kw", k, self.term(v, st)) for k, v in sorted(kwargs.items())]
            if selfv is not None:
                ts.insert(0, self.term(selfv, st))
            self.event("ocall", e, fr, st, fi=fi, selfv=selfv, args=list(args), kwargs=dict(kwargs))
            bases = []
            for a in list(args) + list(kwargs.values()):
                if isinstance(a, (Arr, Seq)):
                    bases.append((a.cid, "may", None))
            return self.new_arr(st, T("apply", T("func", fi.qualname), *ts), bases, node=e, fr=fr)
        self.inlined.add(fi.qualname)
        nf = Frame(fi, closure=fv.closure, selfv=selfv, stack=fr.stack + ((fr.fi, e),))
        child = State(st)
        self.bind_params(nf, fi, selfv, args, kwargs, child, st, fr, e, star, star_kw)
        self.event("icall", e, fr, st, fi=fi, selfv=selfv, args=list(args), kwargs=dict(kwargs), frame=nf, ncell=self._ncell,
                   now={id(a): self.term(a, st) for a in list(args) + list(kwargs.values()) if isinstance(a, (K, Arr))})
        if isinstance(fi.node, ast.Lambda):
            r = self.ev(fi.node.body, child, nf)
            self.commit(st, child)
            self.event("iret", e, fr, st, fi=fi, selfv=selfv, value=r, frame=nf)
            return r
        if fi.is_generator and not nf.yield_hook:
            nf.yields = []
        outs = self.exec_block(fi.node.body, child, nf)
        finals = [s for s in outs.get("ret", [])]
        if outs.get(None):
            n = outs[None][0]
            n.put(("ret", nf.id), K(None))
            finals.append(n)
        if not finals:
            raise Dead(outs.get("exc"), e)
        J = self.join_many(st, finals)
        r = J.get(("ret", nf.id))
        self.commit(st, J)
        if fi.is_generator:
            vals = [v for v, _ in nf.yields]
            el = None
            if vals:
                el = self._summ(vals, st, st, st)
                if el is None:
                    el = self.new_arr(st, T("elem", T("gen", fi.qualname)), node=e, fr=fr)
            src = T("gen", fi.qualname, *([self.term(selfv, st)] if selfv is not None else []))
            return self.new_seq_of(st, "list", el, src, e, fr)
        r = self.settle(r, st) if r is not None else K(None)
        self.event("iret", e, fr, st, fi=fi, selfv=selfv, value=r, frame=nf)
        return r

    def bind_params(self, nf, fi, selfv, args, kwargs, child, st, fr, e, star=(), star_kw=()):
        a = fi.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        kwonly = [x.arg for x in a.kwonlyargs]
        args = list(args)
        if selfv is not None and fi.kind != "staticmethod":
            args = [selfv] + args
        elif fi.cls is not None and fi.kind in ("function", "property") and args and nf.selfv is None:
            nf.selfv = args[0]  # Base.method(self, ...)
        bound = {}
        for n, v in zip(pos, args):
            bound[n] = v
        extra = args[len(pos):]
        leftover = {}
        for k, v in kwargs.items():
            if k in pos or k in kwonly:
                if k in bound:
                    self.event("badcall", e, fr, st, fi=fi, why="multiple values for argument '%s'" % k)
                bound[k] = v
            else:
                leftover[k] = v
        if extra and a.vararg is None:
            self.event("badcall", e, fr, st, fi=fi, why="%d positional arguments too many" % len(extra))
        if leftover and a.kwarg is None:
            self.event("badcall", e, fr, st, fi=fi, why="unexpected keyword argument(s) %s" % ", ".join(sorted(leftover)))
        defaults = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        for n, d in zip(kwonly, a.kw_defaults):
            if d is not None:
                defaults[n] = d
        for n in pos + kwonly:
            if n in bound:
                continue
            if star or star_kw:
                src = list(star) + list(star_kw)
                t = T("starred", n, *[self.term(s, st) for s in src])
                bases = [(s.cid, "may", None) for s in src if isinstance(s, (Arr, Seq))]
                bound[n] = self.new_arr(child, t, bases, node=e, fr=fr)
            elif n in defaults:
                bound[n] = self.default_value(fi, n, defaults[n])
            else:
                self.event("badcall", e, fr, st, fi=fi, why="missing argument '%s'" % n)
                self.event("raise", e, fr, st, exc="TypeError", implicit=True, on="missing argument %s" % n)
                raise Dead("TypeError", e)
        for n, v in bound.items():
            child.put(("v", nf.id, n), v)
        if a.vararg is not None:
            if star:
                child.put(("v", nf.id, a.vararg.arg), star[0])
            else:
                child.put(("v", nf.id, a.vararg.arg), self.new_seq(child, "tuple", extra, e, fr))
        if a.kwarg is not None:
            if star_kw:
                child.put(("v", nf.id, a.kwarg.arg), star_kw[0])
            else:
                child.put(("v", nf.id, a.kwarg.arg),
                          self.new_seq(child, "dict", [(K(k), v) for k, v in leftover.items()], e, fr))

    def default_value(self, fi, name, expr):
        key = ("default", id(fi.node), name)
        if key in self.globals_cache:
            return self.globals_cache[key]
        fr = self.modframe(fi.module)
        rec, self.recording = self.recording, False
        try:
            v = self.ev(expr, self.root, fr)
        except Dead:
            v = self.new_arr(self.root, T("sym", "default:%s.%s" % (fi.qualname, name)))
        finally:
            self.recording = rec
        if isinstance(v, (Arr, Seq)) and self.cells[v.cid].label is None:
            self.cells[v.cid].label = "default:%s.%s" % (fi.qualname, name)
        self.globals_cache[key] = v
        return v

    def instantiate(self, cls, args, kwargs, st, fr, e, star=(), star_kw=()):
        o = self.new_obj(cls, None, e, fr)
        for k in list(st.delta):
            if k[0] == "f" and k[1] == o.oid:
                st.delta[k] = UNBOUND
        self.event("new", e, fr, st, cls=cls, obj=o, args=list(args), kwargs=dict(kwargs))
        hit = cls.lookup("__init__")
        if hit:
            self.call_func(Fn(hit[2], None, o), args, kwargs, st, fr, e, star, star_kw)
        elif cls.is_dataclass:
            names = cls.annotations
            vals = dict(zip(names, args))
            vals.update(kwargs)
            for n in names:
                if n in vals:
                    st.put(("f", o.oid, n), vals[n])
                elif n in cls.attrs:
                    st.put(("f", o.oid, n), self.class_attr_value(cls, n, cls.attrs[n]))
        return o

    # ------------------------------------------------------- library calls
    def run_callbacks(self, args, kwargs, st, fr, e):
        """Package functions handed to library code are run with unknown arguments."""
        for v in list(args) + list(kwargs.values()):
            v = self.settle(v, st)
            if isinstance(v, (Fn, Partial)):
                fi = v.info if isinstance(v, Fn) else (v.fn.info if isinstance(v.fn, Fn) else None)
                if fi is None:
                    continue
                given = 0 if isinstance(v, Fn) else len(v.args)
                n = len(fi.params) - (1 if (isinstance(v, Fn) and v.selfv is not None) else 0) - given
                nd = len(fi.node.args.defaults)
                t = T("cbarg", *[self.term(a, st) for a in args if not isinstance(a, (Fn, Partial, Cl))])
                al = []
                for i in range(max(0, n)):
                    if i >= n - nd and nd:
                        break
                    bases = [(a.cid, "may", None) for a in args if isinstance(a, (Arr, Seq))]
                    al.append(self.new_arr(st, T("cb", i, t), bases, node=e, fr=fr))
                kw = {}
                extra = kwargs.get("args")
                if extra is not None:
                    items = self.seq_items(extra, st)
                    if items is not None and len(items) < len(al):
                        al[len(al) - len(items):] = list(items)
                try:
                    child = State(st)
                    r = self.call(v, al, kw, child, fr, e)
                    J = self.join2(st, T("any", self.loopid()), child, State(st))
                    self.commit(st, J)
                    self._cb_results.append(self.term(r, child))
                except Dead:
                    pass

    _cb_results = []

    def call_ext(self, q, args, kwargs, st, fr, e, star=(), star_kw=()):
        q = X.RENAME.get(q, q)
        h = getattr(self, "x_" + q.replace(".", "_"), None)
        if h is not None and not star and not star_kw:
            r = h(args, kwargs, st, fr, e)
            if r is not None:
                return r
        ts = [self.term(a, st) for a in args] + [self.term(s, st) for s in star]
        kts = [(k, self.term(v, st)) for k, v in sorted(kwargs.items())] + [("**", self.term(s, st)) for s in star_kw]
        self.event("call", e, fr, st, q=q, args=list(args), kwargs=dict(kwargs), terms=ts, kterms=dict(kts))
        if self.ext_hook is not None:
            r = self.ext_hook(q, args, kwargs, st, fr, e)
            if r is not None:
                return r
        saved, self._cb_results = self._cb_results, []
        self.run_callbacks(args, kwargs, st, fr, e)
        cbres, self._cb_results = self._cb_results, saved
        return self.ext_result(q, args, kwargs, ts, kts, st, fr, e, cbres)

    def ext_result(self, q, args, kwargs, ts, kts, st, fr, e, cbres=()):
        kd = dict(kts)
        out = kwargs.get("out")
        if out is None and q in X.OUT_POS and len(args) > X.OUT_POS[q]:
            out = args[X.OUT_POS[q]]
        if isinstance(out, K) and out.v is None:
            out = None
        if out is not None:
            pos = ts[:X.OUT_POS.get(q, len(ts))]
            kts2 = [(k, v) for k, v in kts if k != "out"]
            t = mk_call(q, pos, kts2)
            self.mutate(out, t, st, fr, e, q + "(out=)", None)
            return out
        if q in X.MUTATES_ARG0 and args:
            self.mutate(args[0], T("mut", q, *ts), st, fr, e, q)
            return K(None)
        copyflag = kd.get("copy")
        if q in X.TRANSPARENT_ALIAS or (q in ("numpy.array", "meth.astype") and copyflag is FALSE):
            if args and isinstance(args[0], Arr):
                dt = kd.get("dtype") or (ts[1] if len(ts) > 1 and q != "pandas.Series" else None)
                if dt is None or self.float_dtype(dt):
                    return self.new_arr(st, None, [(args[0].cid, "alias", None)], node=e, fr=fr)
                return self.new_arr(st, mk_call("cast", [ts[0], dt]), [(args[0].cid, "may", None)], node=e, fr=fr)
            if args and isinstance(args[0], (K,)) and q != "pandas.Series":
                return self.new_arr(st, ts[0], node=e, fr=fr)
            if args:
                return self.new_arr(st, mk_call("numpy.asarray", ts[:1]), node=e, fr=fr)
        if q in X.TRANSPARENT_COPY and args:
            a0 = args[0]
            dt = kd.get("dtype") or (ts[1] if len(ts) > 1 and q == "numpy.array" else None)
            if isinstance(a0, Arr):
                if q in ("copy.copy",) or dt is None or self.float_dtype(dt):
                    return self.new_arr(st, ts[0], node=e, fr=fr)
                return self.new_arr(st, mk_call("cast", [ts[0], dt]), node=e, fr=fr)
            if isinstance(a0, Seq) and q in ("copy.copy", "meth.copy"):
                c = self.content(a0.cid, st)
                r = self.new_seq(st, a0.kind, [], e, fr)
                st.put(("c", r.cid), c)
                return r
            if isinstance(a0, PhiV) and q in ("copy.copy", "copy.deepcopy", "meth.copy"):
                return self.both(a0.cond, st, lambda s: self.ext_result(q, [a0.a], kwargs, [self.term(a0.a, s)], kts, s, fr, e),
                                 lambda s: self.ext_result(q, [a0.b], kwargs, [self.term(a0.b, s)], kts, s, fr, e))
        if q == "meth.astype" and args:
            dt = ts[1] if len(ts) > 1 else kd.get("dtype")
            if dt is not None and self.float_dtype(dt):
                return self.new_arr(st, ts[0], node=e, fr=fr)
            return self.new_arr(st, mk_call("cast", [ts[0]] + ([dt] if dt is not None else [])), node=e, fr=fr)
        if q == "numpy.nan_to_num" and copyflag is FALSE and args:
            self.mutate(args[0], mk_call(q, ts), st, fr, e, "numpy.nan_to_num(copy=False)")
            return args[0]
        bases = []
        if q in X.VIEW_FUNCS:
            for a in args[:1]:
                if isinstance(a, (Arr, Seq)):
                    bases.append((a.cid, "may", None))
        if q == "pandas.DataFrame" and args and isinstance(args[0], Arr) and kd.get("copy") is not TRUE:
            bases.append((args[0].cid, "may", None))
        t = mk_call(q, ts, kts)
        if cbres:
            t = T("call", q, *(list(t.args[1:]) + [T("kw", "<callback>", x) for x in cbres])) if t.op == "call" else t
        if t.op == "const":
            return K(t.args[0])
        return self.new_arr(st, t, bases, node=e, fr=fr)

    def float_dtype(self, dt):
        if dt.op == "ext":
            return dt.args[0] in X.FLOAT_DTYPES
        if dt.op == "const":
            return dt.args[0] in ("float", "float64", "d", "f8", None)
        return False

    def call_ext_method(self, m, args, kwargs, st, fr, e, star=(), star_kw=()):
        recv, name = m.recv, m.name
        h = getattr(self, "m_" + name, None)
        if h is not None:
            r = h(recv, args, kwargs, st, fr, e)
            if r is not None:
                return r
        if isinstance(recv, Obj) and name == "fit_transform" and not (star or star_kw):
            fit, tr = (self.method(self.objs[recv.oid].cls, n) for n in ("fit", "transform"))
            if fit is not None and tr is not None:
                self.call_func(Fn(fit, None, recv), args, kwargs, st, fr, e)
                return self.call_func(Fn(tr, None, recv), args[:1], {k: v for k, v in kwargs.items() if k == "X"}, st, fr, e)
        if isinstance(recv, Obj):
            # inherited from a library base class, or a missing method
            ts = [self.term(a, st) for a in args]
            self.event("mcall", e, fr, st, name=name, recv=recv, args=list(args), kwargs=dict(kwargs), terms=ts)
            return self.new_arr(st, T("mcall", name, self.term(recv, st), *ts), node=e, fr=fr)
        rt = self.term(recv, st)
        ts = [self.term(a, st) for a in args] + [self.term(s, st) for s in star]
        kts = [(k, self.term(v, st)) for k, v in sorted(kwargs.items())] + [("**", self.term(s, st)) for s in star_kw]
        kd = dict(kts)
        self.event("mcall", e, fr, st, name=name, recv=recv, rterm=rt, args=list(args), kwargs=dict(kwargs), terms=ts,
                   kterms=kd, roots=frozenset(self.roots(recv, st)))
        if self.ext_hook is not None:
            r = self.ext_hook("meth." + name, [recv] + list(args), kwargs, st, fr, e)
            if r is not None:
                return r
        if kd.get("inplace") is TRUE:
            self.mutate(recv, T("mut", name, rt, *ts), st, fr, e, ".%s(inplace=True)" % name)
            return K(None)
        if name in X.MUTATING_METHODS and not isinstance(recv, (K, Fn)):
            r = self.new_arr(st, T("mcall", name, rt, *ts), [(recv.cid, "may", None)] if isinstance(recv, Arr) else [],
                             node=e, fr=fr)
            nt = mk_call("filled", [ts[0]]) if name == "fill" and ts else T("mut", name, rt, *ts)
            self.mutate(recv, nt, st, fr, e, "." + name)
            return r
        if name in X.MUTATING_STMT_METHODS and not isinstance(recv, (K, Fn)) and (
                isinstance(recv, Seq) or getattr(e, "_discarded", False)):
            self.mutate(recv, T("mut", name, rt, *(ts + [T("kw", k, v) for k, v in kts])), st, fr, e, "." + name)
            return K(None)
        if name in X.NP_METHODS:
            return self.call_ext_nohook("numpy." + name, [recv] + list(args), kwargs, st, fr, e)
        if name == "flatten":
            return self.new_arr(st, mk_call("numpy.ravel", [rt]), node=e, fr=fr)
        saved, self._cb_results = self._cb_results, []
        self.run_callbacks([recv] + list(args), kwargs, st, fr, e)
        cbres, self._cb_results = self._cb_results, saved
        return self.ext_result("meth." + name, [recv] + list(args), kwargs, [rt] + ts, kts, st, fr, e, cbres)

    def call_ext_nohook(self, q, args, kwargs, st, fr, e):
        ts = [self.term(a, st) for a in args]
        kts = [(k, self.term(v, st)) for k, v in sorted(kwargs.items())]
        self.event("call", e, fr, st, q=q, args=list(args), kwargs=dict(kwargs), terms=ts, kterms=dict(kts), method=True)
        h = getattr(self, "x_" + q.replace(".", "_"), None)
        if h is not None:
            r = h(args, kwargs, st, fr, e)
            if r is not None:
                return r
        return self.ext_result(q, args, kwargs, ts, kts, st, fr, e)

    # -------------------------------------------------- models of builtins
    def x_builtins_isinstance(self, args, kwargs, st, fr, e):
        v, c = args
        return self.res(st, self.isinstance_term(v, c, st), e, fr)

    def isinstance_term(self, v, c, st):
        v = self.settle(v, st)
        if isinstance(c, Seq):
            items = self.seq_items(c, st)
            if items is not None:
                return mk_or(*[self.isinstance_term(v, x, st) for x in items])
        if isinstance(v, PhiV):
            if UNBOUND in (v.a, v.b):
                return self.isinstance_term(v.b if v.a is UNBOUND else v.a, c, st)
            return mk_phi(v.cond, self.isinstance_term(v.a, c, st), self.isinstance_term(v.b, c, st))
        if isinstance(v, Obj) and isinstance(c, Cl):
            return const(self.objs[v.oid].cls.is_subclass(c.info))
        if isinstance(v, Obj) and isinstance(c, Ext):
            cls = self.objs[v.oid].cls
            if c.q in cls.mro:
                return TRUE
            if c.q.startswith(("builtins.", "pandas.", "numpy.")):
                return FALSE
            return T("isinstance", self.term(v, st), self.term(c, st))
        if isinstance(v, K):
            pt = {"builtins.str": str, "builtins.int": int, "builtins.float": float, "builtins.bool": bool,
                  "builtins.tuple": tuple, "builtins.list": list, "builtins.dict": dict}
            if isinstance(c, Ext) and c.q in pt:
                return const(isinstance(v.v, pt[c.q]))
            if v.v is None or isinstance(c, Cl):
                return FALSE
            if isinstance(c, Ext) and c.q == "six.string_types":
                return const(isinstance(v.v, str))
            if isinstance(c, Ext) and c.q.startswith(("pandas.", "numpy.nd")):
                return FALSE
        if isinstance(v, Seq) and isinstance(c, Ext):
            if c.q in ("builtins.list", "builtins.tuple", "builtins.dict", "builtins.set"):
                return const(c.q == "builtins." + v.kind)
            if c.q.startswith(("pandas.", "numpy.")) or c.q in ("builtins.str", "builtins.int", "six.string_types"):
                return FALSE
        if isinstance(v, (Seq, Fn, Cl, Mod)) and isinstance(c, Cl):
            return FALSE
        if isinstance(v, Fn) and isinstance(c, Ext):
            return FALSE
        if isinstance(c, Cl) and isinstance(v, Arr):
            t = self.term(v, st)
            if t.op in ("bin", "upd", "cmp", "call") and t.op != "call":
                return FALSE
        return T("isinstance", self.term(v, st), self.term(c, st))

    def x_builtins_hasattr(self, args, kwargs, st, fr, e):
        if len(args) == 2 and isinstance(args[1], K):
            self.event("hasattr", e, fr, st, obj=self.settle(args[0], st), name=args[1].v)
            return self.res(st, self.hasattr_term(args[0], args[1].v, st), e, fr)

    def x_builtins_getattr(self, args, kwargs, st, fr, e):
        if len(args) >= 2 and isinstance(args[1], K) and isinstance(args[1].v, str):
            return self.getattr(args[0], args[1].v, st, fr, e, args[2] if len(args) > 2 else None)

    def x_builtins_setattr(self, args, kwargs, st, fr, e):
        if len(args) == 3 and isinstance(args[1], K):
            self.setattr(args[0], args[1].v, args[2], st, fr, e)
            return K(None)

    def x_builtins_delattr(self, args, kwargs, st, fr, e):
        if len(args) == 2 and isinstance(args[1], K):
            self.delattr(args[0], args[1].v, st, fr, e)
            return K(None)

    def x_builtins_type(self, args, kwargs, st, fr, e):
        if len(args) == 1:
            v = self.settle(args[0], st)
            if isinstance(v, Obj):
                return Cl(self.objs[v.oid].cls)

    def x_builtins_vars(self, args, kwargs, st, fr, e):
        if len(args) == 1 and isinstance(args[0], Obj):
            return ObjDict(args[0].oid)

    def x_builtins_len(self, args, kwargs, st, fr, e):
        v = self.settle(args[0], st)
        items = self.seq_items(v, st)
        if items is not None:
            return K(len(items))
        if isinstance(v, Obj) and self.objs[v.oid].cls.lookup("__len__"):
            return self.call_method(v, "__len__", [], {}, st, fr, e)
        if isinstance(v, K) and isinstance(v.v, (str, bytes)):
            return K(len(v.v))
        if isinstance(v, K) and v.v is None:
            self.event("raise", e, fr, st, exc="TypeError", implicit=True, on="len(None)")
            raise Dead("TypeError", e)
        t = self.term(v, st)
        return self.new_arr(st, T("len", self.len_of(t)), node=e, fr=fr)

    def len_of(self, t):
        """Strip operations that keep the length."""
        n = 0
        while n < 20:
            n += 1
            if t.op == "upd":
                t = t.args[0]
            elif t.op == "call" and t.args[0] in ("numpy.asarray", "cast", "numpy.isfinite", "numpy.isnan", "numpy.exp",
                                                  "numpy.log", "numpy.abs"):
                t = t.args[1]
            else:
                break
        return t

    def x_builtins_bool(self, args, kwargs, st, fr, e):
        if len(args) == 1:
            return self.res(st, self.cond(args[0], st), e, fr)

    def x_builtins_list(self, args, kwargs, st, fr, e):
        return self._mkseq("list", args, st, fr, e)

    def x_builtins_tuple(self, args, kwargs, st, fr, e):
        return self._mkseq("tuple", args, st, fr, e)

    def x_builtins_set(self, args, kwargs, st, fr, e):
        return self._mkseq("set", args, st, fr, e)

    def x_builtins_frozenset(self, args, kwargs, st, fr, e):
        return self._mkseq("set", args, st, fr, e)

    def _mkseq(self, kind, args, st, fr, e):
        if not args:
            return self.new_seq(st, kind, [], e, fr)
        v = self.settle(args[0], st)
        items = self.iter_literal(v, st)
        if items is not None:
            return self.new_seq(st, kind, items, e, fr)
        t = self.term(v, st)
        self.event("call", e, fr, st, q="builtins." + kind, args=list(args), kwargs={}, terms=[t], kterms={})
        el = self.iter_elem(v, st, fr, e)
        return self.new_seq_of(st, kind, el, mk_call("builtins." + kind, [t]), e, fr)

    def x_builtins_dict(self, args, kwargs, st, fr, e):
        items = []
        if args:
            v = self.settle(args[0], st)
            if isinstance(v, ObjDict):
                items = self._objdict_items(v, st)
            elif isinstance(v, Seq) and v.kind == "dict" and self.seq_items(v, st) is not None:
                items = list(self.seq_items(v, st))
            else:
                lits = self.iter_literal(v, st)
                if lits is None:
                    return None
                for x in lits:
                    kv = self.seq_items(x, st)
                    if kv is None or len(kv) != 2:
                        return None
                    items.append((kv[0], kv[1]))
        items += [(K(k), v) for k, v in kwargs.items()]
        return self.new_seq(st, "dict", items, e, fr)

    def _objdict_items(self, v, st):
        seen = {}
        s = st
        while s is not None:
            for k, val in s.delta.items():
                if k[0] == "f" and k[1] == v.oid and k[2] not in seen:
                    seen[k[2]] = val
            s = s.parent
        return [(K(n), val) for n, val in sorted(seen.items()) if val is not UNBOUND]

    def x_builtins_enumerate(self, args, kwargs, st, fr, e):
        items = self.iter_literal(args[0], st)
        start = 0
        sv = args[1] if len(args) > 1 else kwargs.get("start")
        if isinstance(sv, K):
            start = sv.v
        if items is not None and (sv is None or isinstance(sv, K)):
            return self.new_seq(st, "list", [self.new_seq(st, "tuple", [K(start + i), x]) for i, x in enumerate(items)],
                                e, fr)
        el = self.iter_elem(args[0], st, fr, e)
        t = self.term(args[0], st)
        idx = self.new_arr(st, T("elemidx", t), node=e, fr=fr)
        pair = self.new_seq(st, "tuple", [idx, el if el is not None else self.new_arr(st, T("elem", t))], e, fr)
        return self.new_seq_of(st, "list", pair, mk_call("builtins.enumerate", [t]), e, fr)

    def x_builtins_zip(self, args, kwargs, st, fr, e):
        lits = [self.iter_literal(a, st) for a in args]
        if all(x is not None for x in lits):
            return self.new_seq(st, "list", [self.new_seq(st, "tuple", list(t)) for t in zip(*lits)], e, fr)
        els = []
        for a in args:
            el = self.iter_elem(a, st, fr, e)
            els.append(el if el is not None else self.new_arr(st, T("elem", self.term(a, st))))
        pair = self.new_seq(st, "tuple", els, e, fr)
        return self.new_seq_of(st, "list", pair, mk_call("builtins.zip", [self.term(a, st) for a in args]), e, fr)

    def x_builtins_map(self, args, kwargs, st, fr, e):
        if len(args) == 2:
            items = self.iter_literal(args[1], st)
            if items is not None:
                return self.new_seq(st, "list", [self.call(args[0], [x], {}, st, fr, e) for x in items], e, fr)
            el = self.iter_elem(args[1], st, fr, e)
            if el is not None:
                r = self.call(args[0], [el], {}, st, fr, e)
                return self.new_seq_of(st, "list", r, T("over", self.term(args[1], st)), e, fr)

    def x_builtins_iter(self, args, kwargs, st, fr, e):
        return args[0] if len(args) == 1 else None

    def x_builtins_next(self, args, kwargs, st, fr, e):
        el = self.iter_elem(args[0], st, fr, e)
        if len(args) > 1 and el is not None:
            return self.join_val(T("any", self.loopid()), el, args[1], st, st, st)
        return el

    def x_builtins_sorted(self, args, kwargs, st, fr, e):
        t = self.term(args[0], st)
        el = self.iter_elem(args[0], st, fr, e)
        self.event("call", e, fr, st, q="builtins.sorted", args=list(args), kwargs=dict(kwargs), terms=[t],
                   kterms={k: self.term(v, st) for k, v in kwargs.items()})
        return self.new_seq_of(st, "list", el, mk_call("builtins.sorted", [t]), e, fr)

    def x_builtins_reversed(self, args, kwargs, st, fr, e):
        items = self.iter_literal(args[0], st)
        if items is not None:
            return self.new_seq(st, "list", list(reversed(items)), e, fr)
        el = self.iter_elem(args[0], st, fr, e)
        return self.new_seq_of(st, "list", el, mk_call("builtins.reversed", [self.term(args[0], st)]), e, fr)

    def x_builtins_slice(self, args, kwargs, st, fr, e):
        parts = [self.term(a, st) for a in args]
        if kwargs or not 1 <= len(parts) <= 3:
            return None
        parts = [NONE] + parts if len(parts) == 1 else parts
        return self.new_arr(st, T("slice", *(parts + [NONE])[:3]), node=e, fr=fr)

    def x_six_iteritems(self, args, kwargs, st, fr, e):
        return self.m_items(args[0], [], {}, st, fr, e)

    def x_six_itervalues(self, args, kwargs, st, fr, e):
        return self.m_values(args[0], [], {}, st, fr, e)

    def x_functools_partial(self, args, kwargs, st, fr, e):
        return Partial(args[0], list(args[1:]), dict(kwargs))

    def x_builtins_any(self, args, kwargs, st, fr, e):
        return self._anyall(args, st, fr, e, mk_or, "builtins.any")

    def x_builtins_all(self, args, kwargs, st, fr, e):
        return self._anyall(args, st, fr, e, mk_and, "builtins.all")

    def _anyall(self, args, st, fr, e, op, q):
        items = self.iter_literal(args[0], st)
        if items is not None:
            return self.res(st, op(*[self.cond(x, st) for x in items]), e, fr)
        return self.res(st, mk_call(q, [self.term(args[0], st)]), e, fr)

    def x_builtins_callable(self, args, kwargs, st, fr, e):
        v = self.settle(args[0], st)
        if isinstance(v, (Fn, Cl, Partial)):
            return K(True)
        if isinstance(v, (Seq, K)):
            return K(False)

    def x_builtins_globals(self, args, kwargs, st, fr, e):
        r = self.new_arr(st, T("globals", fr.module.name), label="global:%s.*" % fr.module.name, node=e, fr=fr)
        return r

    def x_sum_(self, *a):
        return None

    # numexpr strings are Python expressions over local names
    def x_numexpr_evaluate(self, args, kwargs, st, fr, e):
        if args and isinstance(args[0], K) and isinstance(args[0].v, str):
            try:
                tree = ast.parse(args[0].v.strip(), mode="eval").body
            except SyntaxError:
                return None
            for sub in ast.walk(tree):
                if hasattr(sub, "lineno"):
                    sub.lineno = e.lineno
            nf = Frame(fr.fi, closure=fr, selfv=fr.selfv, stack=fr.stack, module=fr.module)
            for ld in (args[1] if len(args) > 1 else kwargs.get("local_dict"),
                       kwargs.get("global_dict")):
                if ld is not None:
                    items = self.seq_items(ld, st)
                    for k, v in items or ():
                        if isinstance(k, K):
                            st.put(("v", nf.id, k.v), v)
            for fn in ("sum", "exp", "log", "where", "sqrt", "abs", "min", "max", "prod", "sin", "cos", "log1p", "expm1",
                       "sinh", "arcsinh", "tanh", "floor", "ceil", "log10"):
                st.put(("v", nf.id, fn), self.ext("numpy." + fn))
            v = self.ev(tree, st, nf)
            out = kwargs.get("out")
            if out is not None and not (isinstance(out, K) and out.v is None):
                self.mutate(out, self.term(v, st), st, fr, e, "numexpr.evaluate(out=)")
                return out
            return v

    # --------------------------------------------------- container methods
    def m_items(self, recv, args, kwargs, st, fr, e):
        recv = self.settle(recv, st)
        if isinstance(recv, Seq) and recv.kind == "dict":
            c = self.content(recv.cid, st)
            if isinstance(c, tuple):
                if c[0] == "lit":
                    return self.new_seq(st, "list", [self.new_seq(st, "tuple", [k, v]) for k, v in c[1]], e, fr)
                return self.new_seq_of(st, "list", self.new_seq(st, "tuple", [c[3] or K(None), c[1] or K(None)]),
                                       T("over", self.term(recv, st)), e, fr)
        if isinstance(recv, ObjDict):
            return self.new_seq(st, "list", [self.new_seq(st, "tuple", [k, v]) for k, v in self._objdict_items(recv, st)],
                                e, fr)
        if isinstance(recv, Arr):
            t = self.term(recv, st)
            k = self.new_arr(st, T("elem", t), node=e, fr=fr)
            v = self.new_arr(st, T("elemval", t), [(recv.cid, "may", None)], node=e, fr=fr)
            return self.new_seq_of(st, "list", self.new_seq(st, "tuple", [k, v]), T("over", t), e, fr)

    def m_keys(self, recv, args, kwargs, st, fr, e):
        recv = self.settle(recv, st)
        if isinstance(recv, Seq) and recv.kind == "dict":
            c = self.content(recv.cid, st)
            if isinstance(c, tuple):
                if c[0] == "lit":
                    return self.new_seq(st, "list", [k for k, v in c[1]], e, fr)
                return self.new_seq_of(st, "list", c[3], T("over", self.term(recv, st)), e, fr)

    def m_values(self, recv, args, kwargs, st, fr, e):
        recv = self.settle(recv, st)
        if isinstance(recv, Seq) and recv.kind == "dict":
            c = self.content(recv.cid, st)
            if isinstance(c, tuple):
                if c[0] == "lit":
                    return self.new_seq(st, "list", [v for k, v in c[1]], e, fr)
                return self.new_seq_of(st, "list", c[1], T("over", self.term(recv, st)), e, fr)

    def m_get(self, recv, args, kwargs, st, fr, e):
        recv = self.settle(recv, st)
        dflt = args[1] if len(args) > 1 else kwargs.get("default", K(None))
        if isinstance(recv, ObjDict) and args and isinstance(args[0], K):
            return self.obj_getattr(Obj(recv.oid), args[0].v, st, fr, e, dflt)
        if isinstance(recv, Seq) and recv.kind == "dict" and args:
            c = self.content(recv.cid, st)
            if isinstance(c, tuple) and c[0] == "lit":
                key = args[0]
                kt = self.term(key, st)
                r = dflt
                for k, v in reversed(c[1]):
                    if v is UNBOUND:
                        continue
                    i = self._ident(k, key, st, "==")
                    if i is None:
                        i = mk_cmp("==", kt, self.term(k, st))
                    d = self.decide(i, st)
                    if d is True:
                        return v
                    if d is False:
                        continue
                    r = self.join_val(i, v, r, st, st, st)
                return r
            if isinstance(c, tuple):
                if c[1] is None:
                    return dflt
                return self.join_val(T("cmp", "in", self.term(args[0], st), self.term(recv, st)), c[1], dflt, st, st, st)

    def m_append(self, recv, args, kwargs, st, fr, e):
        return self._list_mut(recv, "append", lambda it: list(it) + [args[0]], [args[0]], st, fr, e)

    def m_extend(self, recv, args, kwargs, st, fr, e):
        new = self.iter_literal(args[0], st)
        el = None if new is not None else self.iter_elem(args[0], st, fr, e)
        return self._list_mut(recv, "extend", (lambda it: list(it) + new) if new is not None else None,
                              new if new is not None else [el], st, fr, e)

    def m_insert(self, recv, args, kwargs, st, fr, e):
        if isinstance(self.settle(recv, st), Seq) and len(args) == 2:
            def f(it):
                it = list(it)
                if isinstance(args[0], K) and isinstance(args[0].v, int):
                    it.insert(args[0].v, args[1])
                    return it
                return None
            return self._list_mut(recv, "insert", f, [args[1]], st, fr, e)

    def m_add(self, recv, args, kwargs, st, fr, e):
        r = self.settle(recv, st)
        if isinstance(r, Seq) and r.kind == "set" and len(args) == 1:
            return self._list_mut(recv, "add", lambda it: list(it) + [args[0]], [args[0]], st, fr, e)

    def m_update(self, recv, args, kwargs, st, fr, e):
        r = self.settle(recv, st)
        if isinstance(r, Seq) and r.kind == "dict":
            items = [(K(k), v) for k, v in kwargs.items()]
            if args:
                more = self.seq_items(args[0], st)
                if more is None:
                    return None
                items = list(more) + items
            for k, v in items:
                self.setitem(r, k, v, st, fr, e)
            return K(None)
        if isinstance(r, ObjDict):
            items = [(K(k), v) for k, v in kwargs.items()]
            if args:
                more = self.seq_items(args[0], st)
                if more is None:
                    self.event("setattr", e, fr, st, obj=Obj(r.oid), name="*", value=args[0], old=None)
                    self.objs[r.oid].closed = False
                    return K(None)
                items = list(more) + items
            for k, v in items:
                if isinstance(k, K):
                    self.setattr(Obj(r.oid), k.v, v, st, fr, e)
            return K(None)

    def _list_mut(self, recv, name, f, new, st, fr, e):
        recv = self.settle(recv, st)
        if not isinstance(recv, Seq):
            return None
        c = self.content(recv.cid, st)
        if not isinstance(c, tuple):
            return None
        self.event("mutate", e, fr, st, roots=frozenset(self.roots(recv, st)), how="." + name, idx=None, target=recv,
                   value=new[0] if new else None, before=None, after=None)
        if c[0] == "lit" and f is not None:
            items = f(c[1])
            if items is not None and len(items) <= 200:
                st.put(("c", recv.cid), ("lit", tuple(items)))
                return K(None)
        vals = list(c[1]) if c[0] == "lit" else ([c[1]] if c[1] is not None else [])
        t = T("mut", name, self._seq_term(c, st, recv.kind, 0), *[self.term(x, st) for x in new if x is not None])
        st.put(("c", recv.cid), ("of", self._summ(vals + [x for x in new if x is not None], st, st, st), t, None))
        return K(None)

    def m_pop(self, recv, args, kwargs, st, fr, e):
        r = self.settle(recv, st)
        if isinstance(r, ObjDict) and args and isinstance(args[0], K):
            f = st.get(("f", r.oid, args[0].v))
            self.delattr(Obj(r.oid), args[0].v, st, fr, e)
            return f if f is not None and f is not UNBOUND else (args[1] if len(args) > 1 else K(None))
        if isinstance(r, Seq) and r.kind == "dict" and args and isinstance(args[0], K):
            c = self.content(r.cid, st)
            if isinstance(c, tuple) and c[0] == "lit":
                hit = [v for k, v in c[1] if isinstance(k, K) and k.v == args[0].v]
                self.event("mutate", e, fr, st, roots=frozenset(self.roots(r, st)), how=".pop", idx=self.term(args[0], st),
                           target=r, value=None, before=None, after=None)
                st.put(("c", r.cid), ("lit", tuple((k, v) for k, v in c[1] if not (isinstance(k, K) and k.v == args[0].v))))
                if hit:
                    return hit[0]
                if len(args) > 1:
                    return args[1]

    def m_copy(self, recv, args, kwargs, st, fr, e):
        r = self.settle(recv, st)
        if isinstance(r, ObjDict):
            return self.new_seq(st, "dict", self._objdict_items(r, st), e, fr)
        if isinstance(r, (Seq, PhiV)):
            return self.ext_result("copy.copy", [r], {}, [self.term(r, st)], [], st, fr, e)

    def m_get_params(self, recv, args, kwargs, st, fr, e):
        r = self.settle(recv, st)
        if isinstance(r, Obj):
            cls = self.objs[r.oid].cls
            hit = cls.lookup("__init__")
            items = []
            if hit:
                for n in hit[2].all_params[1:]:
                    items.append((K(n), self.obj_getattr(r, n, st, fr, e, K(None))))
            return self.new_seq(st, "dict", items, e, fr)

    def m_format(self, recv, args, kwargs, st, fr, e):
        if isinstance(recv, K):
            ts = [self.term(a, st) for a in args] + [self.term(v, st) for _, v in sorted(kwargs.items())]
            return self.new_arr(st, T("fstr", const(recv.v), *ts), node=e, fr=fr)

    def m_at(self, recv, args, kwargs, st, fr, e):
        return None

    # ------------------------------------------------------------ set/del
    def setattr(self, o, name, v, st, fr, e):
        o = self.settle(o, st)
        if isinstance(o, PhiV):
            if UNBOUND in (o.a, o.b):
                return self.setattr(o.b if o.a is UNBOUND else o.a, name, v, st, fr, e)
            self.both(o.cond, st, lambda s: (self.setattr(o.a, name, v, s, fr, e), K(None))[1],
                      lambda s: (self.setattr(o.b, name, v, s, fr, e), K(None))[1])
            return
        if isinstance(o, Obj):
            cls = self.objs[o.oid].cls
            hit = cls.find_setter(name)
            if hit:
                self.call_func(Fn(hit, None, o), [v], {}, st, fr, e)
                return
            if name == "__dict__":
                items = self.seq_items(v, st)
                if items is not None:
                    for k, x in items:
                        if isinstance(k, K):
                            self.setattr(o, k.v, x, st, fr, e)
                    return
                self.objs[o.oid].closed = False
            old = st.get(("f", o.oid, name))
            self.event("setattr", e, fr, st, obj=o, name=name, value=v, old=old,
                       term=self.term(v, st) if isinstance(v, Arr) else None)
            st.put(("f", o.oid, name), v)
            return
        if isinstance(o, (Cl, Mod)):
            self.event("globalwrite", e, fr, st, target=o, name=name, value=v)
            return
        # attribute of opaque data
        self.event("mutate", e, fr, st, roots=frozenset(self.roots(o, st)), how=".%s=" % name, idx=const(name), target=o,
                   value=v, before=self.term(o, st), after=None, attr=name)
        if isinstance(o, Arr):
            self._write_cell(o.cid, T("updattr", self.term(o, st), name, self.term(v, st)), st, 0)

    def delattr(self, o, name, st, fr, e):
        o = self.settle(o, st)
        if isinstance(o, Obj):
            self.event("delattr", e, fr, st, obj=o, name=name)
            st.put(("f", o.oid, name), UNBOUND)

    def setitem(self, c, i, v, st, fr, e):
        c = self.settle(c, st)
        if isinstance(c, PhiV):
            if UNBOUND in (c.a, c.b):
                return self.setitem(c.b if c.a is UNBOUND else c.a, i, v, st, fr, e)
            self.both(c.cond, st, lambda s: (self.setitem(c.a, i, v, s, fr, e), K(None))[1],
                      lambda s: (self.setitem(c.b, i, v, s, fr, e), K(None))[1])
            return
        if isinstance(c, ObjDict):
            if isinstance(i, K):
                self.setattr(Obj(c.oid), i.v, v, st, fr, e)
            return
        if isinstance(c, Obj):
            if self.objs[c.oid].cls.lookup("__setitem__"):
                self.call_method(c, "__setitem__", [i, v], {}, st, fr, e)
            return
        if isinstance(c, Seq):
            cc = self.content(c.cid, st)
            if isinstance(cc, tuple):
                self.event("mutate", e, fr, st, roots=frozenset(self.roots(c, st)), how="[]=", idx=self.term(i, st),
                           target=c, value=v, before=None, after=None)
                if c.kind == "dict":
                    if cc[0] == "lit":
                        items = list(cc[1])
                        if isinstance(i, K):
                            for n, (k, _) in enumerate(items):
                                if isinstance(k, K) and type(k.v) is type(i.v) and k.v == i.v:
                                    items[n] = (k, v)
                                    break
                            else:
                                items.append((i, v))
                            st.put(("c", c.cid), ("lit", tuple(items)))
                            return
                        if len(items) < 40:
                            for n, (k, _) in enumerate(items):
                                if self.same(k, i):
                                    items[n] = (k, v)
                                    break
                            else:
                                items.append((i, v))
                            # keys not comparable: keep as literal only if it is the first
                            if len(items) == 1 or all(self.same(k, i) or isinstance(k, (Cl, EnumM)) for k, _ in items):
                                t = mk_upd(self._seq_term(cc, st, "dict", 0), self.term(i, st), self.term(v, st))
                                st.put(("c", c.cid), ("of", v, t, i))
                                return
                        t = mk_upd(self._seq_term(cc, st, "dict", 0), self.term(i, st), self.term(v, st))
                        st.put(("c", c.cid), ("of", self._summ([x for _, x in items], st, st, st), t,
                                              self._summ([k for k, _ in items], st, st, st)))
                        return
                    t = mk_upd(cc[2], self.term(i, st), self.term(v, st))
                    st.put(("c", c.cid), ("of", self._summ([x for x in (cc[1], v) if x is not None], st, st, st), t,
                                          self._summ([x for x in (cc[3], i) if x is not None], st, st, st)))
                    return
                if cc[0] == "lit" and isinstance(i, K) and type(i.v) is int and -len(cc[1]) <= i.v < len(cc[1]):
                    items = list(cc[1])
                    items[i.v] = v
                    st.put(("c", c.cid), ("lit", tuple(items)))
                    return
                vals = list(cc[1]) if cc[0] == "lit" else [cc[1]]
                t = mk_upd(self._seq_term(cc, st, c.kind, 0), self.term(i, st), self.term(v, st))
                st.put(("c", c.cid), ("of", self._summ([x for x in vals + [v] if x is not None], st, st, st), t, None))
                return
        if isinstance(c, (Arr, Seq)):
            it, vt = self.term(i, st), self.term(v, st)
            self.mutate(c, mk_upd(self.term(c, st), it, vt), st, fr, e, "[]=", it, v)
            return
        if isinstance(c, K) and c.v is None:
            raise Dead("TypeError", e)
