"""Statements, control flow, loops."""
import ast

from .terms import T, const, TRUE, FALSE, NONE
from .build import mk_not, mk_and, mk_or, mk_phi, mk_bin, is_bool
from .state import (K, Fn, Cl, Mod, Ext, Obj, ObjDict, Seq, Arr, ExtMeth, PhiV, UNBOUND, State)
from .core import Dead, Frame
from .program import FuncInfo
from .calls import CallMixin

UNROLL = 32


def exc_name(node):
    if node is None:
        return None
    if isinstance(node, ast.Call):
        node = node.func
    if isinstance(node, ast.Attribute):
        return node.attr
    if isinstance(node, ast.Name):
        return node.id
    return None


class StmtMixin(CallMixin):
    # A statement returns None when control simply continues in the same state, else a dict
    # outcome -> [states]; outcomes: None (normal), ret, brk, cont, gret, gbrk.

    def exec_block(self, stmts, st, fr):
        outs = {}
        cur = st
        for s in stmts:
            try:
                o = self.exec(s, cur, fr)
            except Dead as d:
                outs["exc"] = d.exc
                return outs
            if o is None:
                continue
            for k, v in o.items():
                if k == "exc":
                    outs["exc"] = v
                elif k is not None:
                    outs.setdefault(k, []).extend(v)
            if not o.get(None):
                return outs
            cur = o[None][0]
        outs[None] = [cur]
        return outs

    def exec(self, s, st, fr):
        self.steps += 1
        m = getattr(self, "st_" + type(s).__name__, None)
        if m is None:
            return None
        return m(s, st, fr)

    @staticmethod
    def nonnormal(o):
        return [k for k in o if k not in (None, "exc") and o[k]]

    # --------------------------------------------------------------- simple
    def st_Expr(self, s, st, fr):
        v = s.value
        if isinstance(v, ast.Constant):
            return None
        if isinstance(v, ast.Yield) and fr.yield_hook is not None:
            val = self.ev(v.value, st, fr) if v.value is not None else K(None)
            return fr.yield_hook(val, st)
        if isinstance(v, ast.Call):
            v._discarded = True
        self.ev(v, st, fr)
        return None

    def st_Pass(self, s, st, fr):
        return None

    def st_Return(self, s, st, fr):
        v = self.ev(s.value, st, fr) if s.value is not None else K(None)
        st.put(("ret", fr.id), v)
        self.event("return", s, fr, st, value=v)
        return {"ret": [st]}

    def st_Break(self, s, st, fr):
        return {"brk": [st]}

    def st_Continue(self, s, st, fr):
        return {"cont": [st]}

    def st_Raise(self, s, st, fr):
        name = exc_name(s.exc)
        val = None
        if s.exc is not None:
            try:
                val = self.ev(s.exc, st, fr)
            except Dead:
                pass
        if isinstance(val, Obj):
            name = self.objs[val.oid].cls.name
        self.event("raise", s, fr, st, exc=name or "re-raise", implicit=False)
        raise Dead(name, s)

    def st_Assert(self, s, st, fr):
        c = self.cond(self.ev(s.test, st, fr), st)
        d = self.decide(c, st)
        if d is True:
            return None
        f = st.fork(c, False)
        self.event("raise", s, fr, f, exc="AssertionError", implicit=False)
        if d is False:
            raise Dead("AssertionError", s)
        st.assume(c, True)
        return None

    def st_Global(self, s, st, fr):
        fr.globals |= set(s.names)

    def st_Nonlocal(self, s, st, fr):
        fr.nonlocals |= set(s.names)

    def st_Import(self, s, st, fr):
        for a in s.names:
            q = a.name if a.asname else a.name.split(".")[0]
            r = self.p.resolve(q)
            st.put(("v", fr.id, a.asname or q), self.resolved(r) if r is not None else self.ext(q))

    def st_ImportFrom(self, s, st, fr):
        base = s.module or ""
        if s.level:
            pkg = fr.module._pkg(s.level)
            base = pkg + ("." + base if base else "")
        for a in s.names:
            q = base + "." + a.name
            r = self.p.resolve(q)
            v = self.resolved(r) if r is not None else self.ext(q)
            st.put(("v", fr.id, a.asname or a.name), v if v is not None else self.ext(q))

    def st_FunctionDef(self, s, st, fr):
        fi = FuncInfo(s, fr.module, cls=None, parent=fr.fi if fr.fi.name != "<module>" else None)
        fi.cls_ctx = getattr(fr.fi, "cls_ctx", None) or fr.fi.cls
        st.put(("v", fr.id, s.name), Fn(fi, fr))

    def st_ClassDef(self, s, st, fr):
        st.put(("v", fr.id, s.name), self.new_arr(st, T("opaque", "class " + s.name), node=s, fr=fr))

    # ----------------------------------------------------------- assignment
    def st_Assign(self, s, st, fr):
        v = self.ev(s.value, st, fr)
        for t in s.targets:
            self.assign(t, v, st, fr)

    def st_AnnAssign(self, s, st, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st, fr), st, fr)

    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            self.bind_name(t.id, v, st, fr, t)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, st, fr), t.attr, v, st, fr, t)
        elif isinstance(t, ast.Subscript):
            c = self.ev(t.value, st, fr)
            i = self.ev(t.slice, st, fr)
            self.setitem(c, i, v, st, fr, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t, v, st, fr)

    def bind_name(self, name, v, st, fr, node):
        if name in fr.globals:
            self.event("globalwrite", node, fr, st, target=Mod(fr.module), name=name, value=v)
            return
        if name in fr.nonlocals:
            f = fr.closure
            while f is not None:
                if st.get(("v", f.id, name)) is not None:
                    st.put(("v", f.id, name), v)
                    return
                f = f.closure
        st.put(("v", fr.id, name), v)

    def unpack(self, t, v, st, fr):
        v = self.settle(v, st)
        n = len(t.elts)
        star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
        items = self.iter_literal(v, st) if not isinstance(v, PhiV) else None
        if items is not None and not star:
            if len(items) == n:
                for x, y in zip(t.elts, items):
                    self.assign(x, y, st, fr)
                return
            self.event("raise", t, fr, st, exc="ValueError", implicit=True, on="unpack")
            raise Dead("ValueError", t)
        if items is not None and star and len(items) >= n - 1:
            i = star[0]
            k = len(items) - (n - 1)
            for x, y in zip(t.elts[:i], items[:i]):
                self.assign(x, y, st, fr)
            self.assign(t.elts[i].value, self.new_seq(st, "list", items[i:i + k], t, fr), st, fr)
            for x, y in zip(t.elts[i + 1:], items[i + k:]):
                self.assign(x, y, st, fr)
            return
        if isinstance(v, K) and v.v is None:
            self.event("raise", t, fr, st, exc="TypeError", implicit=True, on="unpack None")
            raise Dead("TypeError", t)
        for i, x in enumerate(t.elts):
            self.assign(x, self.getitem(v, K(i), st, fr, t), st, fr)

    def scalar_like(self, t, depth=0):
        if depth > 6:
            return False
        if t.op in ("const", "len", "elemidx", "fstr") or t in self.scalars:
            return True
        if t.op == "call" and t.args[0] in ("builtins.int", "builtins.float", "builtins.str", "builtins.round",
                                            "builtins.len", "time.time"):
            return True
        if t.op == "sub" and t.args[0].op == "attr" and t.args[0].args[1] == "shape":
            return True
        if t.op in ("bin", "un"):
            return all(self.scalar_like(a, depth + 1) for a in t.args[1:])
        if t.op == "phi":
            return self.scalar_like(t.args[1], depth + 1) and self.scalar_like(t.args[2], depth + 1)
        if t.op == "mu":
            init = self.mu.get(t, (None, None))[0]
            return init is not None and self.scalar_like(init, depth + 1)
        return False

    def immutable_aug(self, cur, v, st):
        """Augmented assignment that rebinds: strings and configuration scalars."""
        if isinstance(v, K) and isinstance(v.v, str):
            return True
        t = self.term(v, st)
        if t.op == "fstr":
            return True
        roots = self.roots(cur, st)
        return bool(roots) and all(r.startswith(("param:", "default:")) for r in roots) and not isinstance(v, Seq)

    def st_AugAssign(self, s, st, fr):
        op = type(s.op).__name__
        t = s.target
        if isinstance(t, ast.Subscript):
            c = self.ev(t.value, st, fr)
            i = self.ev(t.slice, st, fr)
            cur = self.getitem(c, i, st, fr, t)
            v = self.ev(s.value, st, fr)
            r = self.binop(op, cur, v, st, fr, s)
            if isinstance(cur, Arr) and isinstance(c, (Seq, Obj)) and not self.scalar_like(self.term(cur, st)):
                self.mutate(cur, self.term(r, st), st, fr, s, "%s=" % op)
                return None
            self.setitem(c, i, r, st, fr, t)
            return None
        if isinstance(t, ast.Name):
            cur = self.lookup_name(t.id, st, fr, t)
        else:
            base = self.ev(t.value, st, fr)
            cur = self.getattr(base, t.attr, st, fr, t)
        v = self.ev(s.value, st, fr)
        cur = self.settle(cur, st)
        if isinstance(cur, Seq) and cur.kind == "list" and op == "Add":
            if self.m_extend(cur, [v], {}, st, fr, s) is not None:
                return None
        r = self.binop(op, cur, v, st, fr, s)
        if isinstance(cur, Arr) and not self.scalar_like(self.term(cur, st)) and not self.immutable_aug(cur, v, st):
            self.mutate(cur, self.term(r, st), st, fr, s, "%s=" % op, None, v)
            r = cur
        if isinstance(t, ast.Name):
            if not self.same(r, cur):
                self.bind_name(t.id, r, st, fr, t)
        else:
            self.setattr(base, t.attr, r, st, fr, t)
        return None

    def st_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.put(("v", fr.id, t.id), UNBOUND)
            elif isinstance(t, ast.Attribute):
                self.delattr(self.ev(t.value, st, fr), t.attr, st, fr, t)
            elif isinstance(t, ast.Subscript):
                c = self.settle(self.ev(t.value, st, fr), st)
                i = self.ev(t.slice, st, fr)
                if isinstance(c, Seq):
                    if self.m_pop(c, [i, K(None)], {}, st, fr, t) is not None:
                        continue
                if isinstance(c, ObjDict) and isinstance(i, K):
                    self.delattr(Obj(c.oid), i.v, st, fr, t)
                    continue
                if isinstance(c, (Arr, Seq)):
                    if isinstance(c, Seq):
                        cc = self.content(c.cid, st)
                        self.event("mutate", t, fr, st, roots=frozenset(self.roots(c, st)), how="del []",
                                   idx=self.term(i, st), target=c, value=None, before=None, after=None)
                        continue
                    self.mutate(c, T("mut", "del", self.term(c, st), self.term(i, st)), st, fr, t, "del []",
                                self.term(i, st))

    # ----------------------------------------------------------------- if
    def st_If(self, s, st, fr):
        c = self.cond(self.ev(s.test, st, fr), st)
        d = self.decide(c, st)
        self.event("branch", s, fr, st, cond=c, decided=d)
        if d is not None:
            return self.exec_block(s.body if d else s.orelse, st, fr)
        A, B = st.fork(c, True), st.fork(c, False)
        oa = self.exec_block(s.body, A, fr)
        ob = self.exec_block(s.orelse, B, fr)
        return self.merge_branches(st, c, oa, ob)

    def merge_branches(self, st, c, oa, ob):
        na, nb = oa.get(None), ob.get(None)
        other = self.nonnormal(oa) or self.nonnormal(ob)
        if na and nb:
            J = self.join2(st, c, na[0], nb[0])
        elif na or nb:
            J = (na or nb)[0]
        else:
            J = None
        if not other:
            if J is None:
                raise Dead(oa.get("exc") or ob.get("exc"))
            self.commit(st, J)
            return None
        st.frozen = True
        outs = {}
        for o in (oa, ob):
            for k in self.nonnormal(o):
                outs.setdefault(k, []).extend(o[k])
            if "exc" in o:
                outs["exc"] = o["exc"]
        if J is not None:
            outs[None] = [State(J)] if J.frozen else [J]
        return outs

    def st_Match(self, s, st, fr):
        self.event("unsupported", s, fr, st)
        return None

    # --------------------------------------------------------------- with
    def st_With(self, s, st, fr):
        for item in s.items:
            v = self.ev(item.context_expr, st, fr)
            self.event("with", item.context_expr, fr, st, value=v)
            ent = v
            if isinstance(v, Obj) and self.objs[v.oid].cls.lookup("__enter__"):
                ent = self.call_method(v, "__enter__", [], {}, st, fr, item.context_expr)
            elif isinstance(v, Arr):
                t = self.term(v, st)
                if t.op == "call" and t.args[0] == "contextlib.closing":
                    ent = self.new_arr(st, t.args[1], node=item.context_expr, fr=fr)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, ent, st, fr)
        return self.exec_block(s.body, st, fr)

    # ---------------------------------------------------------------- try
    def st_Try(self, s, st, fr):
        body = State(st)
        ob = self.exec_block(s.body, body, fr)
        dead = not ob.get(None)
        norm = ob.get(None)
        if norm and s.orelse:
            oe = self.exec_block(s.orelse, norm[0] if not norm[0].frozen else State(norm[0]), fr)
            norm = oe.get(None)
            for k in self.nonnormal(oe):
                ob.setdefault(k, []).extend(oe[k])
        outs = {}
        for k in self.nonnormal(ob):
            outs.setdefault(k, []).extend(ob[k])
        normals = []
        if norm:
            normals.append(norm[0])
        lid = self.loopid()
        exc = ob.get("exc")
        only_exc = dead and not self.nonnormal(ob)
        for n, h in enumerate(s.handlers):
            names = self._handler_names(h.type)
            if only_exc and exc is not None and names is not None and exc not in names and not (
                    {"Exception", "BaseException"} & names) and not (exc == "KeyError" and "LookupError" in names):
                continue
            c = T("any", "exc", lid, n)
            if dead:
                hs = st.fork(c, True)
            else:
                # any prefix of the body may have run
                part = self.join2(st, T("any", "partial", lid, n), ob[None][0], State(st))
                part.facts = st.facts
                hs = State(part)
                hs.assume(c, True)
            if h.name:
                hs.put(("v", fr.id, h.name), self.new_arr(hs, T("opaque", "exception"), node=h, fr=fr))
            oh = self.exec_block(h.body, hs, fr)
            for k in self.nonnormal(oh):
                outs.setdefault(k, []).extend(oh[k])
            if oh.get(None):
                normals.append(oh[None][0])
        if s.finalbody:
            if not normals and not self.nonnormal(outs):
                self.exec_block(s.finalbody, State(st), fr)
            for k in list(outs):
                if k in (None, "exc"):
                    continue
                res = []
                for x in outs[k]:
                    of = self.exec_block(s.finalbody, State(x), fr)
                    res.extend(of.get(None, []))
                    for k2 in self.nonnormal(of):
                        res.extend(of[k2])
                outs[k] = res
        if normals:
            J = normals[-1]
            for i, x in reversed(list(enumerate(normals[:-1]))):
                J = self.join2(st, mk_not(T("any", "exc", lid, i)), x, J)
            if s.finalbody:
                J = State(J)
                of = self.exec_block(s.finalbody, J, fr)
                for k in self.nonnormal(of):
                    outs.setdefault(k, []).extend(of[k])
                J = of[None][0] if of.get(None) else None
        else:
            J = None
        if not self.nonnormal(outs):
            if J is None:
                raise Dead(exc)
            self.commit(st, J)
            return None
        st.frozen = True
        if J is not None:
            outs[None] = [State(J) if J.frozen else J]
        return outs

    st_TryStar = st_Try

    def _handler_names(self, t):
        if t is None:
            return {"BaseException"}
        if isinstance(t, ast.Tuple):
            return {exc_name(x) for x in t.elts}
        return {exc_name(t)}

    # --------------------------------------------------------------- loops
    def st_For(self, s, st, fr):
        gen = self._generator_call(s.iter, st, fr)
        if gen is not None:
            return self.for_generator(s, gen, st, fr)
        it = self.ev(s.iter, st, fr)
        items = self.iter_literal(it, st)
        if items is not None and len(items) <= UNROLL:
            return self.unroll(s, items, st, fr)

        def head(h):
            x = self.iter_elem(it, h, fr, s.iter)
            if x is None:
                x = self.new_arr(h, T("elem", self.term(it, h)), node=s.iter, fr=fr)
            self.event("iter", s, fr, h, source=self.term(it, h), value=it)
            self.loop_visits.setdefault(s, set()).update(self.reach(x, h)[0])
            self.assign(s.target, x, h, fr)
            return h, None

        return self.loop(s, head, st, fr)

    def _generator_call(self, e, st, fr):
        """(Fn, call node) when e is a direct call of a package generator."""
        if isinstance(e, ast.Call) and not e.keywords or isinstance(e, ast.Call):
            if isinstance(e.func, (ast.Attribute, ast.Name)):
                rec, self.recording = self.recording, False
                try:
                    f = self.ev(e.func, State(st), fr)
                except Dead:
                    f = None
                finally:
                    self.recording = rec
                if isinstance(f, Fn) and f.info.is_generator and not any(isinstance(a, ast.Starred) for a in e.args) \
                        and all(k.arg for k in e.keywords):
                    return f
        return None

    def for_generator(self, s, gen, st, fr):
        e = s.iter
        fi = gen.info
        args = [self.ev(a, st, fr) for a in e.args]
        kwargs = {k.arg: self.ev(k.value, st, fr) for k in e.keywords}
        nf = Frame(fi, closure=gen.closure, selfv=gen.selfv, stack=fr.stack + ((fr.fi, e),))
        self.inlined.add(fi.qualname)
        child = State(st)
        self.bind_params(nf, fi, gen.selfv, args, kwargs, child, st, fr, e)

        def hook(val, cur):
            self.assign(s.target, val, cur, fr)
            o = self.exec_block(s.body, cur, fr)
            out = {}
            norm = list(o.get(None, [])) + list(o.get("cont", []))
            if norm:
                if len(norm) > 1:
                    out[None] = [self.join_many(cur, norm)]
                else:
                    out[None] = norm
            if o.get("brk"):
                out["gbrk"] = o["brk"]
            for k in ("ret", "gret"):
                if o.get(k):
                    out.setdefault("gret", []).extend(o[k])
            if "exc" in o:
                out["exc"] = o["exc"]
            if not norm and not self.nonnormal(out):
                raise Dead(o.get("exc"))
            if norm and out[None][0] is cur and not self.nonnormal(out):
                return None
            return out

        nf.yield_hook = hook
        outs = self.exec_block(fi.node.body, child, nf)
        normals = list(outs.get(None, [])) + list(outs.get("ret", [])) + list(outs.get("gbrk", []))
        res = {}
        if outs.get("gret"):
            res["ret"] = outs["gret"]
        if normals:
            J = self.join_many(st, normals)
        else:
            if not res:
                raise Dead(outs.get("exc"))
            return res
        if not res:
            self.commit(st, J)
            if s.orelse:
                return self.exec_block(s.orelse, st, fr)
            return None
        st.frozen = True
        res[None] = [State(J)]
        return res

    def unroll(self, s, items, st, fr):
        cur = State(st)
        brk, outs = [], {}
        for x in items:
            b = State(cur)
            self.assign(s.target, x, b, fr)
            o = self.exec_block(s.body, b, fr)
            for k in ("ret", "gret", "gbrk"):
                if o.get(k):
                    outs.setdefault(k, []).extend(o[k])
            brk.extend(o.get("brk", []))
            norm = list(o.get(None, [])) + list(o.get("cont", []))
            if not norm:
                cur = None
                outs["exc"] = o.get("exc")
                break
            if len(norm) == 1 and not self.nonnormal(o):
                self.commit(cur, norm[0])
            else:
                cur = State(self.join_many(cur, norm))
        ends = ([cur] if cur is not None else []) + brk
        if s.orelse and cur is not None:
            oe = self.exec_block(s.orelse, cur, fr)
            for k in self.nonnormal(oe):
                outs.setdefault(k, []).extend(oe[k])
            ends = list(oe.get(None, [])) + brk
        return self.finish_loop(st, ends, outs)

    def finish_loop(self, st, ends, outs):
        if not ends:
            if not self.nonnormal(outs):
                raise Dead(outs.get("exc"))
            st.frozen = True
            return outs
        J = ends[0] if len(ends) == 1 else self.join_many(st, ends)
        if not self.nonnormal(outs):
            self.commit(st, J)
            return None
        st.frozen = True
        outs[None] = [State(J)]
        return outs

    def st_While(self, s, st, fr):
        def head(h):
            c = self.cond(self.ev(s.test, h, fr), h)
            self.event("loopcond", s, fr, h, cond=c)
            d = self.decide(c, h)
            if d is True:
                return State(h), None
            if d is False:
                return None, State(h)
            return h.fork(c, True), h.fork(c, False)

        return self.loop(s, head, st, fr, is_while=True)

    def loop(self, s, head, st, fr, is_while=False):
        lid = self.loopid()
        self.loop_nodes[lid] = s
        changed = {}
        rec = self.recording
        # find what one iteration may change
        final = None
        self.recording = False
        try:
            for _ in range(5):
                H = self._loop_head(st, changed, lid)
                E = self._iterate(s, head, H, fr)[0]
                if E is None:
                    break
                new = False
                for k, v in E.delta_since(H).items():
                    if k[0] == "ret":
                        continue
                    if k[0] == "c":
                        old = self._content0(k[1], st)
                        if old is None:
                            continue
                    else:
                        old = st.get(k)
                        if old is None or old is UNBOUND:
                            continue
                    hv = H.get(k)
                    if hv is v or (not isinstance(v, (tuple, T)) and hv is not None and not isinstance(hv, (tuple, T))
                                   and self.same(hv, v)):
                        continue
                    if k not in changed:
                        changed[k] = []
                        new = True
                    if len(changed[k]) < 4 and not any(x is v for x, _ in changed[k]):
                        changed[k].append((v, E))
                if not new:
                    break
        finally:
            self.recording = rec
        H = self._loop_head(st, changed, lid)
        E, X, o = self._iterate(s, head, H, fr)
        if E is not None:
            for k in changed:
                t = T("mu", lid, k)
                if t in self.mu:
                    init = self.mu[t][0]
                    self.mu[t] = (init, self._key_term(k, E))
        ends = []
        if X is not None:
            Xs = State(X)
            if E is not None:
                hd = E.delta_since(H)
                for k, v in hd.items():
                    if k in changed or k[0] == "ret" or k in Xs.delta:
                        continue
                    if k[0] == "f":
                        if st.get(k) in (None, UNBOUND) and not isinstance(v, PhiV):
                            Xs.put(k, PhiV(T("any", "ran", lid), v, UNBOUND))
                        elif st.get(k) in (None, UNBOUND):
                            Xs.put(k, v)
                    elif k[0] == "v" and st.get(k) is None:
                        Xs.put(k, v)
                    elif k[0] == "c" and self._content0(k[1], st) is None:
                        Xs.put(k, v)
            Xs = self._orelse(s, Xs, fr, o)
            if Xs is not None:
                ends.append(Xs)
        ends.extend(o.get("brk", []))
        outs = {k: o[k] for k in ("ret", "gret", "gbrk", "exc") if o.get(k)}
        return self.finish_loop(st, ends, outs)

    def _orelse(self, s, Xs, fr, o):
        if not s.orelse:
            return Xs
        oe = self.exec_block(s.orelse, Xs, fr)
        for k in self.nonnormal(oe):
            o.setdefault(k, []).extend(oe[k])
        return oe[None][0] if oe.get(None) else None

    def _content0(self, cid, st):
        c = st.get(("c", cid))
        if c is not None:
            return c
        c = self.root.get(("c", cid))
        if c is not None:
            return c
        return None

    def _key_term(self, k, st):
        if k[0] == "c":
            return self.term_c(k[1], st)
        v = st.get(k)
        return self.term(v, st) if v is not None else T("unbound")

    def _loop_head(self, st, changed, lid):
        H = State(st)
        for k, vals in changed.items():
            t = T("mu", lid, k)
            if k[0] == "c":
                old = self._content0(k[1], st)
                if isinstance(old, T) and all(isinstance(v, T) for v, _ in vals):
                    self.mu[t] = (self.term_c(k[1], st), self.mu.get(t, (None, None))[1])
                    H.put(k, t)
                    continue
                elems, keys = [], []
                for c, S in [(old, st)] + vals:
                    if not isinstance(c, tuple):
                        continue
                    if c[0] == "lit":
                        for it in c[1]:
                            if isinstance(it, tuple):
                                keys.append((it[0], S))
                                elems.append((it[1], S))
                            else:
                                elems.append((it, S))
                    else:
                        elems.append((c[1], S))
                        keys.append((c[3], S))
                # a literal list whose length never changes keeps its shape
                lits = [c for c, _ in [(old, st)] + vals if isinstance(c, tuple) and c[0] == "lit"]
                self.mu[t] = (self._key_term(k, st), self.mu.get(t, (None, None))[1])
                if len(lits) == len(vals) + 1 and len({len(c[1]) for c in lits}) == 1 and lits[0][1] and \
                        not isinstance(lits[0][1][0], tuple):
                    items = []
                    for i in range(len(lits[0][1])):
                        vs = [(c[1][i], S) for c, S in [(old, st)] + vals]
                        items.append(self._mix(vs, H, T("sub", t, const(i)), lid))
                    H.put(k, ("lit", tuple(items)))
                elif len(lits) == len(vals) + 1 and lits[0][1] and all(
                        c[1] and isinstance(c[1][0], tuple) for c in lits) and len(
                        {tuple(kk.v for kk, _ in c[1] if isinstance(kk, K)) for c in lits}) == 1 and all(
                        isinstance(kk, K) for kk, _ in lits[0][1]):
                    items = []
                    for i in range(len(lits[0][1])):
                        vs = [(c[1][i][1], S) for c, S in [(old, st)] + vals]
                        items.append((lits[0][1][i][0], self._mix(vs, H, T("sub", t, const(lits[0][1][i][0].v)), lid)))
                    H.put(k, ("lit", tuple(items)))
                else:
                    H.put(k, ("of", self._mix([e for e in elems if e[0] is not None], H, T("elem", t), lid), t,
                              self._mix([e for e in keys if e[0] is not None], H, T("key", t), lid) if keys else None))
                continue
            old = st.get(k)
            vs = [(old, st)] + vals
            self.mu[t] = (self._key_term(k, st), self.mu.get(t, (None, None))[1])
            H.put(k, self._mix(vs, H, t, lid))
        return H

    def _mix(self, vs, H, t, lid):
        """A value that may be any of vs; opaque data gets term t."""
        vals = []
        for v, S in vs:
            if v is None or v is UNBOUND:
                continue
            if not any(self.same(v, w) for w, _ in vals):
                vals.append((v, S))
        if not vals:
            return K(None)
        if len(vals) == 1:
            return vals[0][0]
        if all(isinstance(v, (Arr, K)) for v, _ in vals):
            bases = [(v.cid, "may", None) for v, _ in vals if isinstance(v, Arr)]
            return self.new_arr(H, t, bases[:1] if len(bases) == 1 else bases)
        flat = []
        for v, S in vals:
            self._flat_phi(v, flat)
        arrs = [v for v in flat if isinstance(v, (Arr, K))]
        rest = [v for v in flat if not isinstance(v, (Arr, K))]
        r = None
        for v in rest:
            if r is None:
                r = v
            elif not self.same(r, v):
                r = PhiV(T("any", self.loopid()), r, v)
        if arrs:
            if len(arrs) == 1 and isinstance(arrs[0], K):
                a = arrs[0]
            else:
                a = self.new_arr(H, t, [(v.cid, "may", None) for v in arrs if isinstance(v, Arr)])
            r = a if r is None else PhiV(T("any", self.loopid()), r, a)
        return r

    def _flat_phi(self, v, out):
        if isinstance(v, PhiV):
            self._flat_phi(v.a, out)
            self._flat_phi(v.b, out)
        elif v is not UNBOUND and not any(self.same(v, w) for w in out):
            out.append(v)

    def _iterate(self, s, head, H, fr):
        """(state after one iteration or None, exit state or None, outcomes)."""
        hs = State(H)
        try:
            b, x = head(hs)
        except Dead as d:
            return None, None, {"exc": d.exc}
        if isinstance(s, ast.For):
            x = State(H)
        o = {}
        E = None
        if b is not None:
            o = self.exec_block(s.body, b if b is not hs or isinstance(s, ast.For) else b, fr)
            norm = list(o.get(None, [])) + list(o.get("cont", []))
            if norm:
                E = norm[0] if len(norm) == 1 else self.join_many(H, norm)
        return E, x, o
