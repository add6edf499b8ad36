"""Abstract values and the layered abstract state."""
from .terms import T, const


class Val(object):
    __slots__ = ()


class K(Val):
    """A Python constant."""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return "K(%r)" % (self.v,)


class Fn(Val):
    __slots__ = ("info", "closure", "selfv")

    def __init__(self, info, closure=None, selfv=None):
        self.info, self.closure, self.selfv = info, closure, selfv

    def __repr__(self):
        return "Fn(%s)" % self.info.qualname


class Cl(Val):
    __slots__ = ("info",)

    def __init__(self, info):
        self.info = info

    def __repr__(self):
        return "Cl(%s)" % self.info.qualname


class Mod(Val):
    __slots__ = ("m",)

    def __init__(self, m):
        self.m = m


class Ext(Val):
    __slots__ = ("q",)

    def __init__(self, q):
        self.q = q

    def __repr__(self):
        return "Ext(%s)" % self.q


class Sup(Val):
    __slots__ = ("cls", "selfv")

    def __init__(self, cls, selfv):
        self.cls, self.selfv = cls, selfv


class Obj(Val):
    __slots__ = ("oid",)

    def __init__(self, oid):
        self.oid = oid

    def __repr__(self):
        return "Obj(%s)" % (self.oid,)


class ObjDict(Val):
    """obj.__dict__"""
    __slots__ = ("oid",)

    def __init__(self, oid):
        self.oid = oid


class EnumM(Val):
    __slots__ = ("cls", "name", "val")

    def __init__(self, cls, name, val):
        self.cls, self.name, self.val = cls, name, val


class Seq(Val):
    """list / tuple / set / dict; contents live in the state under ('c', cid)."""
    __slots__ = ("cid", "kind")

    def __init__(self, cid, kind):
        self.cid, self.kind = cid, kind

    def __repr__(self):
        return "Seq(%s,%s)" % (self.kind, self.cid)


class Arr(Val):
    """Any other data value; its term lives in the state under ('c', cid)."""
    __slots__ = ("cid",)

    def __init__(self, cid):
        self.cid = cid

    def __repr__(self):
        return "Arr(%s)" % self.cid


class ExtMeth(Val):
    """Method of a value the package does not define."""
    __slots__ = ("recv", "name")

    def __init__(self, recv, name):
        self.recv, self.name = recv, name


class Partial(Val):
    __slots__ = ("fn", "args", "kwargs")

    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, args, kwargs


class PhiV(Val):
    __slots__ = ("cond", "a", "b")

    def __init__(self, cond, a, b):
        self.cond, self.a, self.b = cond, a, b

    def __repr__(self):
        return "PhiV(%r,%r)" % (self.a, self.b)


class _Unbound(Val):
    __slots__ = ()

    def __repr__(self):
        return "UNBOUND"


UNBOUND = _Unbound()


class Facts(object):
    """Persistent list of (term, bool) assumptions."""
    __slots__ = ("parent", "term", "val", "depth", "index")

    def __init__(self, parent, term, val):
        self.parent, self.term, self.val = parent, term, val
        self.depth = 0 if parent is None else parent.depth + 1
        self.index = None

    def lookup(self, term):
        f = self
        while f is not None:
            if f.term is term:
                return f.val
            f = f.parent
        return None

    def items(self):
        f = self
        while f is not None:
            if f.term is not None:
                yield (f.term, f.val)
            f = f.parent

    def since(self, anc):
        f = self
        out = []
        while f is not None and f is not anc:
            if f.term is not None:
                out.append((f.term, f.val))
            f = f.parent
        out.reverse()
        return out


NOFACTS = Facts(None, None, None)


class State(object):
    __slots__ = ("parent", "delta", "facts", "cond", "frozen", "fork_facts")

    def __init__(self, parent=None, cond=None):
        self.parent = parent
        self.delta = {}
        self.facts = parent.facts if parent is not None else NOFACTS
        self.fork_facts = self.facts
        self.cond = cond  # term under which this child is taken from its parent
        self.frozen = False

    def get(self, key):
        s = self
        while s is not None:
            v = s.delta.get(key)
            if v is not None:
                return v
            s = s.parent
        return None

    def put(self, key, val):
        assert not self.frozen
        self.delta[key] = val

    def fork(self, cond=None, val=True):
        s = State(self, cond)
        if cond is not None:
            s.assume(cond, val)
        return s

    def assume(self, term, val=True):
        """Add a fact, splitting conjunctions."""
        while term.op == "not":
            term, val = term.args[0], not val
        if term.op == "const":
            return
        if term.op == "and" and val:
            for a in term.args:
                self.assume(a, True)
            return
        if term.op == "or" and not val:
            for a in term.args:
                self.assume(a, False)
            return
        if self.facts.lookup(term) is None:
            self.facts = Facts(self.facts, term, val)

    def delta_since(self, anc):
        """Merged delta of the chain from self up to (excluding) anc."""
        chain = []
        s = self
        while s is not None and s is not anc:
            chain.append(s)
            s = s.parent
        out = {}
        for s in reversed(chain):
            out.update(s.delta)
        return out

    def depth(self):
        n, s = 0, self
        while s is not None:
            n += 1
            s = s.parent
        return n
