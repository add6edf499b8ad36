"""Loads the package under analysis: modules, classes, functions, imports."""
import ast
import hashlib
import os

REPO = os.environ.get("SA_REPO", "/repo")
PACKAGE = "cyclic_boosting"


class AnalysisBroken(Exception):
    """The analysis cannot find what it needs; never reported as a violation."""


class FuncInfo(object):
    def __init__(self, node, module, cls=None, parent=None):
        self.node = node
        self.module = module
        self.cls = cls
        self.parent = parent
        self.name = getattr(node, "name", "<lambda>")
        pre = (parent.qualname + ".<locals>.") if parent is not None else (
            (cls.qualname + ".") if cls is not None else (module.name + "."))
        self.qualname = pre + self.name
        self.kind = "function"
        decs = getattr(node, "decorator_list", [])
        for d in decs:
            if isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod", "property"):
                self.kind = d.id
            elif isinstance(d, ast.Attribute) and d.attr == "setter":
                self.kind = "setter"
            elif isinstance(d, ast.Attribute) and d.attr == "abstractproperty":
                self.kind = "property"
            elif isinstance(d, ast.Attribute) and d.attr == "cached_property":
                self.kind = "property"
        self.is_generator = _has_yield(node)
        self.abstract = any("abstract" in ast.dump(d) for d in decs)

    @property
    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    @property
    def all_params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]

    def loc(self, node=None):
        n = node if node is not None and hasattr(node, "lineno") else self.node
        return "%s:%d" % (self.module.relpath, n.lineno)

    def __repr__(self):
        return "<func %s>" % self.qualname


def _has_yield(fn):
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    stack = list(body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


class ClassInfo(object):
    def __init__(self, node, module, program):
        self.node = node
        self.module = module
        self.program = program
        self.name = node.name
        self.qualname = module.name + "." + node.name
        self.methods = {}
        self.setters = {}
        self.attrs = {}  # class level assignments: name -> expr node
        self.annotations = []
        for st in node.body:
            self._member(st)
        self._mro = None
        self.is_dataclass = any("dataclass" in ast.dump(d) for d in node.decorator_list)

    def _member(self, st):
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            fi = FuncInfo(st, self.module, cls=self)
            if fi.kind == "setter":
                self.setters[st.name] = fi
            else:
                self.methods[st.name] = fi
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    self.attrs[t.id] = st.value
                elif isinstance(t, ast.Tuple) and isinstance(st.value, ast.Tuple):
                    for n, v in zip(t.elts, st.value.elts):
                        if isinstance(n, ast.Name):
                            self.attrs[n.id] = v
        elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
            self.annotations.append(st.target.id)
            if st.value is not None:
                self.attrs[st.target.id] = st.value
        elif isinstance(st, ast.If):
            for s in st.body + st.orelse:
                self._member(s)

    @property
    def bases(self):
        return [self.program.resolve_class_expr(self.module, b) for b in self.node.bases]

    @property
    def mro(self):
        if self._mro is None:
            self._mro = _c3(self)
        return self._mro

    def ext_bases(self):
        out = set()
        for c in self.mro:
            if isinstance(c, str):
                out.add(c)
        return out

    def lookup(self, name, after=None):
        """(kind, owner, thing) for a class member along the MRO."""
        mro = self.mro
        if after is not None:
            if after in mro:
                mro = mro[mro.index(after) + 1:]
        for c in mro:
            if isinstance(c, str):
                continue
            if name in c.methods:
                return ("method", c, c.methods[name])
            if name in c.attrs:
                return ("attr", c, c.attrs[name])
        return None

    def find_setter(self, name):
        for c in self.mro:
            if not isinstance(c, str) and name in c.setters:
                return c.setters[name]
        return None

    def is_subclass(self, other):
        if isinstance(other, str):
            return other in self.mro
        return other in self.mro

    def has_abstract(self):
        seen = set()
        for c in self.mro:
            if isinstance(c, str):
                continue
            for n, f in c.methods.items():
                if n in seen:
                    continue
                seen.add(n)
                if f.abstract:
                    return True
        return False

    def __repr__(self):
        return "<class %s>" % self.qualname


def _c3(cls):
    def merge(seqs):
        res = []
        seqs = [list(s) for s in seqs if s]
        while seqs:
            for s in seqs:
                c = s[0]
                if not any(c in o[1:] for o in seqs):
                    break
            else:
                c = seqs[0][0]
            res.append(c)
            seqs = [[x for x in o if x is not c and x != c] for o in seqs]
            seqs = [o for o in seqs if o]
        return res

    def lin(c):
        if isinstance(c, str):
            return [c]
        bs = [b for b in c.bases if b is not None]
        return [c] + merge([lin(b) for b in bs] + [bs])

    return lin(cls)


class Module(object):
    def __init__(self, name, path, relpath, src, program):
        self.name = name
        self.path = path
        self.relpath = relpath
        self.src = src
        self.program = program
        self.is_pkg = os.path.basename(path) == "__init__.py"
        self.tree = ast.parse(src, filename=path)
        self.digest = hashlib.sha256(src.encode()).hexdigest()
        self.imports = {}
        self.functions = {}
        self.classes = {}
        self.assigns = {}  # name -> list of (expr, target kind)
        self.order = {}
        self.stars = []
        self._scan(self.tree.body)

    def _pkg(self, level):
        parts = self.name.split(".")
        if not self.is_pkg:
            parts = parts[:-1]
        if level > 1:
            parts = parts[: len(parts) - (level - 1)]
        return ".".join(parts)

    def _scan(self, body):
        for st in body:
            if isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self.imports[a.asname] = a.name
                    else:
                        self.imports[a.name.split(".")[0]] = a.name.split(".")[0]
            elif isinstance(st, ast.ImportFrom):
                base = st.module or ""
                if st.level:
                    p = self._pkg(st.level)
                    base = p + ("." + base if base else "")
                for a in st.names:
                    if a.name == "*":
                        self.stars.append(base)
                    else:
                        self.imports[a.asname or a.name] = base + "." + a.name
            elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.functions[st.name] = FuncInfo(st, self)
            elif isinstance(st, ast.ClassDef):
                self.classes[st.name] = st
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    self._target(t, st.value)
            elif isinstance(st, ast.AnnAssign) and st.value is not None:
                self._target(st.target, st.value)
            elif isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name):
                self.assigns.setdefault(st.target.id, []).append(
                    ast.copy_location(ast.BinOp(ast.copy_location(ast.Name(st.target.id, ast.Load()), st), st.op,
                                                st.value), st))
            elif isinstance(st, ast.If):
                self._scan(st.body)
                self._scan(st.orelse)
            elif isinstance(st, ast.Try):
                for h in st.handlers:
                    self._scan(h.body)
                self._scan(st.body)
                self._scan(st.orelse)
            elif isinstance(st, (ast.With, ast.For, ast.While)):
                self._scan(st.body)

    def _target(self, t, value):
        if isinstance(t, ast.Name):
            self.assigns.setdefault(t.id, []).append(value)
        elif isinstance(t, (ast.Tuple, ast.List)) and isinstance(value, (ast.Tuple, ast.List)):
            for a, b in zip(t.elts, value.elts):
                self._target(a, b)


class Program(object):
    def __init__(self, root=None):
        self.root = root or REPO
        self.modules = {}
        base = os.path.join(self.root, PACKAGE)
        if not os.path.isdir(base):
            raise AnalysisBroken("package directory %s not found" % base)
        for dp, dn, fn in sorted(os.walk(base)):
            dn[:] = sorted(d for d in dn if d != "__pycache__")
            for f in sorted(fn):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, self.root)
                name = rel[:-3].replace(os.sep, ".")
                if name.endswith(".__init__"):
                    name = name[: -len(".__init__")]
                with open(p, encoding="utf-8") as fh:
                    src = fh.read()
                self.modules[name] = Module(name, p, rel, src, self)
        self._classes = {}
        for m in self.modules.values():
            for n, node in list(m.classes.items()):
                ci = ClassInfo(node, m, self)
                m.classes[n] = ci
                self._classes[ci.qualname] = ci

    @property
    def classes(self):
        return self._classes

    def digest(self):
        h = hashlib.sha256()
        for n in sorted(self.modules):
            h.update(n.encode())
            h.update(self.modules[n].digest.encode())
        return h.hexdigest()

    def resolve(self, qual, depth=0):
        """Resolve a dotted name to ('module'|'func'|'class'|'assign'|'ext', thing)."""
        if depth > 20:
            return ("ext", qual)
        if qual in self.modules:
            return ("module", self.modules[qual])
        if "." not in qual:
            return ("ext", qual)
        head, last = qual.rsplit(".", 1)
        kind, m = self.resolve(head, depth + 1)
        if kind == "module":
            return self.resolve_in(m, last, depth + 1)
        if kind == "class":
            hit = m.lookup(last)
            if hit and hit[0] == "method":
                return ("func", hit[2])
        if kind == "ext":
            return ("ext", m + "." + last)
        return ("ext", qual)

    def resolve_in(self, m, name, depth=0):
        if name in m.functions:
            return ("func", m.functions[name])
        if name in m.classes:
            return ("class", m.classes[name])
        if name in m.assigns:
            return ("assign", (m, name))
        if name in m.imports:
            q = m.imports[name]
            if q == m.name + "." + name:  # from . import submodule
                return ("module", self.modules[q]) if q in self.modules else ("ext", q)
            return self.resolve(q, depth + 1)
        sub = m.name + "." + name
        if sub in self.modules:
            return ("module", self.modules[sub])
        for s in m.stars:
            if s in self.modules:
                r = self.resolve_in(self.modules[s], name, depth + 1)
                if r is not None and r[0] != "ext":
                    return r
        return None

    def resolve_class_expr(self, module, expr):
        if isinstance(expr, ast.Call):  # e.g. six.with_metaclass(ABCMeta, Base)
            cand = [self.resolve_class_expr(module, a) for a in expr.args]
            cand = [c for c in cand if isinstance(c, ClassInfo)]
            return cand[0] if cand else None
        q = dotted(expr)
        if q is None:
            return None
        head = q.split(".")[0]
        rest = q.split(".")[1:]
        r = self.resolve_in(module, head)
        if r is None:
            return q
        for i, part in enumerate(rest):
            if r[0] == "module":
                nr = self.resolve_in(r[1], part)
                r = nr if nr is not None else ("ext", r[1].name + "." + part)
            elif r[0] == "ext":
                r = ("ext", r[1] + "." + part)
        if r[0] == "class":
            return r[1]
        if r[0] == "assign":
            m, n = r[1]
            v = m.assigns[n][-1]
            if isinstance(v, (ast.Name, ast.Attribute)):
                return self.resolve_class_expr(m, v)
            return None
        if r[0] == "ext":
            return r[1]
        return None

    def cls(self, short):
        """The class with this (unique) short or qualified name."""
        if short in self._classes:
            return self._classes[short]
        hits = [c for c in self._classes.values() if c.name == short or c.qualname.endswith("." + short)]
        if len(hits) != 1:
            raise AnalysisBroken("class %s: %d candidates" % (short, len(hits)))
        return hits[0]

    def func(self, qual):
        r = self.resolve(PACKAGE + "." + qual if not qual.startswith(PACKAGE) else qual)
        if r is None or r[0] != "func":
            raise AnalysisBroken("function %s not found" % qual)
        return r[1]

    def subclasses(self, base):
        return [c for c in self._classes.values() if c is not base and base in c.mro]

    def all_functions(self):
        for m in self.modules.values():
            for f in m.functions.values():
                yield f
            for c in m.classes.values():
                for f in c.methods.values():
                    yield f
                for f in c.setters.values():
                    yield f


def dotted(expr):
    parts = []
    while isinstance(expr, ast.Attribute):
        parts.append(expr.attr)
        expr = expr.value
    if isinstance(expr, ast.Name):
        parts.append(expr.id)
        return ".".join(reversed(parts))
    return None
