"""Helpers for rules on the resolved syntax tree."""
import ast

from .program import dotted


class FuncView(object):
    """A function or module body with parents, local imports and simple name bindings."""

    def __init__(self, program, module, node, qualname, cls=None):
        self.p, self.module, self.node, self.qualname, self.cls = program, module, node, qualname, cls
        self.parents = {}
        self.imports = {}
        self.binds = {}
        self.nodes = []
        self._scan(node)

    def _scan(self, root):
        own = root.body if isinstance(root, ast.Module) else [root]
        stack = [(n, None) for n in own]
        top = isinstance(root, ast.Module)
        while stack:
            n, par = stack.pop()
            self.parents[n] = par
            if top and isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                if isinstance(n, ast.ClassDef):
                    for c in n.body:
                        if not isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                            stack.append((c, n))
                continue
            self.nodes.append(n)
            if isinstance(n, ast.Import):
                for a in n.names:
                    self.imports[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
            elif isinstance(n, ast.ImportFrom) and not n.level:
                for a in n.names:
                    self.imports[a.asname or a.name] = (n.module or "") + "." + a.name
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    self._bind(t, n.value)
            elif isinstance(n, ast.AnnAssign) and n.value is not None:
                self._bind(n.target, n.value)
            elif isinstance(n, ast.AugAssign):
                self._bind(n.target, n)
            elif isinstance(n, (ast.For, ast.comprehension)):
                self._bind(n.target, None)
            elif isinstance(n, ast.arg):
                self.binds.setdefault(n.arg, []).append(None)
            elif isinstance(n, ast.NamedExpr):
                self._bind(n.target, n.value)
            for c in ast.iter_child_nodes(n):
                stack.append((c, n))

    def _bind(self, t, v):
        if isinstance(t, ast.Name):
            self.binds.setdefault(t.id, []).append(v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = v.elts if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts) else [None] * len(t.elts)
            for a, b in zip(t.elts, vs):
                self._bind(a, b)

    def ext(self, expr):
        """Dotted name of an external function or class, or None."""
        q = dotted(expr)
        if q is None:
            return None
        head, _, rest = q.partition(".")
        if head in self.binds and head not in self.imports:
            return None
        if head in self.imports:
            full = self.imports[head] + ("." + rest if rest else "")
            return full
        r = self.p.resolve_in(self.module, head)
        if r is None:
            import builtins
            if hasattr(builtins, head):
                return "builtins." + q
            return None
        for part in rest.split(".") if rest else ():
            if r is None:
                return None
            if r[0] == "module":
                r = self.p.resolve_in(r[1], part) or ("ext", r[1].name + "." + part)
            elif r[0] == "ext":
                r = ("ext", r[1] + "." + part)
            else:
                return None
        return r[1] if r and r[0] == "ext" else None

    def up(self, n):
        return self.parents.get(n)

    def stmt(self, n):
        while n is not None and not isinstance(n, ast.stmt):
            n = self.parents.get(n)
        return n

    def loc(self, n):
        return "%s:%d in %s" % (self.module.relpath, getattr(n, "lineno", 0), self.qualname)


def views(p):
    """Every function, method and module body."""
    out = []
    for m in p.modules.values():
        out.append(FuncView(p, m, m.tree, m.name))
        for f in m.functions.values():
            out.append(FuncView(p, m, f.node, f.qualname))
        for c in m.classes.values():
            for f in list(c.methods.values()) + list(c.setters.values()):
                out.append(FuncView(p, m, f.node, f.qualname, c))
    return out
