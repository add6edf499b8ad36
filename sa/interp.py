"""Entry points of the value-graph builder."""
from .terms import T
from .state import K, Fn, Obj, ObjDict, Arr, Seq, State, PhiV, Partial, ExtMeth, UNBOUND
from .core import Dead, Frame
from .stmts import StmtMixin
from .program import FuncInfo


class Interp(StmtMixin):
    def entry_frame(self, fi):
        f = FuncInfo.__new__(FuncInfo)
        f.__dict__.update(fi.__dict__)
        f.name = "<entry>"
        f.qualname = "<entry %s>" % fi.qualname
        return Frame(f, module=fi.module)

    def call_entry(self, fi, st, selfv=None, args=None, kwargs=None, symbolic=True, prefix=""):
        """Run a function with symbolic arguments for every parameter not given.

        Returns (value, state) or (None, None) when every path raises."""
        args = list(args or ())
        kwargs = dict(kwargs or {})
        a = fi.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if selfv is not None and fi.kind != "staticmethod":
            names = names[1:]
        if symbolic:
            for n in names[len(args):] + [x.arg for x in a.kwonlyargs]:
                if n not in kwargs:
                    kwargs[n] = self.sym(st, prefix + n)
        fr = self.entry_frame(fi)
        child = State(st)
        try:
            v = self.call_func(Fn(fi, None, selfv), args, kwargs, child, fr, fi.node)
        except Dead as d:
            return d, None
        return v, child

    def construct(self, cls, st, kwargs=None, prefix="", label="self", symbolic=True):
        o = self.new_obj(cls, label)
        hit = cls.lookup("__init__")
        kw = dict(kwargs or {})
        if hit:
            fi = hit[2]
            if symbolic:
                for n in fi.all_params[1:]:
                    if n not in kw:
                        kw[n] = self.sym(st, prefix + n, label="param:" + n)
            fr = self.entry_frame(fi)
            self.call_func(Fn(fi, None, o), [], kw, st, fr, fi.node)
        return o

    def method(self, cls, name):
        hit = cls.lookup(name)
        if hit and hit[0] == "method":
            return hit[2]
        return None

    def fields(self, oid, st):
        out = {}
        s = st
        while s is not None:
            for k, v in s.delta.items():
                if k[0] == "f" and k[1] == oid and k[2] not in out:
                    out[k[2]] = v
            s = s.parent
        return {k: v for k, v in out.items() if v is not UNBOUND}

    def reach(self, v, st, oids=None, cids=None):
        """Objects and cells reachable from a value."""
        oids = set() if oids is None else oids
        cids = set() if cids is None else cids
        stack = [v]
        while stack:
            x = stack.pop()
            if x is None or x is UNBOUND:
                continue
            if isinstance(x, Obj):
                if x.oid in oids:
                    continue
                oids.add(x.oid)
                stack.extend(self.fields(x.oid, st).values())
            elif isinstance(x, PhiV):
                stack.append(x.a)
                stack.append(x.b)
            elif isinstance(x, (Arr, Seq)):
                self._reach_cell(x.cid, st, cids, stack)
            elif isinstance(x, Fn):
                stack.append(x.selfv)
            elif isinstance(x, Partial):
                stack.append(x.fn)
                stack.extend(x.args)
                stack.extend(x.kwargs.values())
            elif isinstance(x, ExtMeth):
                stack.append(x.recv)
            elif isinstance(x, ObjDict):
                stack.append(Obj(x.oid))
        return oids, cids

    def _reach_cell(self, cid, st, cids, stack):
        if cid in cids:
            return
        cids.add(cid)
        for b, how, idx in self.cells[cid].bases:
            self._reach_cell(b, st, cids, stack)
        c = self.content(cid, st)
        if isinstance(c, tuple):
            if c[0] == "lit":
                for it in c[1]:
                    stack.extend(it if isinstance(it, tuple) else (it,))
            else:
                stack.append(c[1])
                stack.append(c[3])

    def closure_cells(self, v):
        """The cell of a value and every cell it may alias."""
        out = set()
        if isinstance(v, (Arr, Seq)):
            todo = [v.cid]
            while todo:
                c = todo.pop()
                if c in out:
                    continue
                out.add(c)
                todo.extend(b for b, _, _ in self.cells[c].bases)
        elif isinstance(v, PhiV):
            out |= self.closure_cells(v.a) | self.closure_cells(v.b)
        return out
