"""Loads the repository's Python sources: modules, classes (with properties), functions."""
import ast
import hashlib
import os

REPO = os.environ.get("DMPBBO_REPO", "/repo")


class FuncInfo:
    def __init__(self, node, module, cls=None, kind="func"):
        self.node, self.module, self.cls, self.kind = node, module, cls, kind
        self.name = node.name
        self.cached = False
        # decorators that replace the function by something else
        self.decos = []
        for d in getattr(node, "decorator_list", ()):
            x = d.func if isinstance(d, ast.Call) else d
            nm = x.id if isinstance(x, ast.Name) else getattr(x, "attr", "")
            if nm == "cached_property":
                self.cached = True
            elif nm not in ("property", "setter", "getter", "deleter", "staticmethod", "classmethod", "abstractmethod",
                            "override", "final", "overload", "abstractproperty", "contextmanager", "typechecked", "njit", "jit"):
                self.decos.append(d)

    @property
    def qual(self):
        return f"{self.cls.name}.{self.name}" if self.cls else f"{self.module.short}.{self.name}"

    def loc(self, node=None):
        return f"{self.module.rel}:{(node or self.node).lineno}"


class ClassInfo:
    def __init__(self, node, module):
        self.node, self.module, self.name = node, module, node.name
        self.members = {}
        self.base_exprs = node.bases
        self._mro = None

    def bases(self):
        out = []
        for b in self.base_exprs:
            r = self.module.resolve_static(b)
            if isinstance(r, ClassInfo):
                out.append(r)
        return out

    def mro(self):
        if self._mro is None:
            self._mro = _c3(self)
        return self._mro

    def find(self, name, after=None):
        m = self.mro()
        if after is not None:
            m = m[m.index(after) + 1:]
        for c in m:
            c.build()
            if name in c.members:
                return c.members[name], c
        return None, None

    def build(self):
        if getattr(self, "_built", False):
            return
        self._built = True
        for st in self.node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                kind, prop = "func", None
                for d in st.decorator_list:
                    if isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod", "abstractmethod"):
                        if d.id != "abstractmethod":
                            kind = d.id
                    elif isinstance(d, ast.Name) and d.id in ("property", "cached_property") or \
                            isinstance(d, ast.Attribute) and d.attr == "cached_property":
                        prop = ("get", None)
                    elif isinstance(d, ast.Attribute) and d.attr in ("setter", "getter", "deleter"):
                        base = d.value
                        old = None
                        if isinstance(base, ast.Name):
                            old = self.members.get(base.id)
                        elif isinstance(base, ast.Attribute):
                            r = self.module.resolve_static(base.value)
                            if isinstance(r, ClassInfo):
                                old, _ = r.find(base.attr)
                        prop = (d.attr, old)
                f = FuncInfo(st, self.module, self, kind)
                if prop is None:
                    self.members[st.name] = ("func", f)
                elif prop[0] == "get":
                    self.members[st.name] = ("prop", f, None)
                else:
                    old = prop[1] or ("prop", None, None)
                    if prop[0] == "setter":
                        self.members[st.name] = ("prop", old[1], f)
                    elif prop[0] == "getter":
                        self.members[st.name] = ("prop", f, old[2])
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        v = st.value
                        # name = property(getter, setter)
                        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "property":
                            fs = [self.members.get(a.id, (None, None))[1] if isinstance(a, ast.Name) else None
                                  for a in v.args[:2]]
                            kw = {k.arg: k.value for k in v.keywords}
                            for i, nm in enumerate(("fget", "fset")):
                                if nm in kw and isinstance(kw[nm], ast.Name):
                                    while len(fs) <= i:
                                        fs.append(None)
                                    fs[i] = self.members.get(kw[nm].id, (None, None))[1]
                            fs += [None] * (2 - len(fs))
                            self.members[t.id] = ("prop", fs[0], fs[1])
                        else:
                            self.members[t.id] = ("const", v)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                self.members[st.target.id] = ("const", st.value)

    def __repr__(self):
        return f"<class {self.name}>"


def _c3(c):
    seqs = [list(b.mro()) for b in c.bases()] + [list(c.bases())]
    out = [c]
    while True:
        seqs = [s for s in seqs if s]
        if not seqs:
            return out
        for s in seqs:
            h = s[0]
            if not any(h in t[1:] for t in seqs):
                break
        else:
            raise ValueError("mro " + c.name)
        out.append(h)
        for s in seqs:
            if s[0] is h:
                s.pop(0)


class External:
    """A name outside the analysed packages, by dotted path."""

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return f"<ext {self.path}>"


class ModuleInfo:
    def __init__(self, prog, dotted, path):
        self.prog, self.dotted, self.path = prog, dotted, path
        self.rel = os.path.relpath(path, prog.root)
        self.short = dotted.rsplit(".", 1)[-1]
        with open(path, "rb") as f:
            src = f.read()
        self.digest = hashlib.sha256(src).hexdigest()
        self.src = src.decode()
        self.tree = ast.parse(self.src, path)
        self.names = {}
        self._scan(self.tree.body)

    def _scan(self, body):
        for st in body:
            if isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self.names[a.asname] = ("import", a.name, None)
                    else:
                        self.names[a.name.split(".")[0]] = ("import", a.name.split(".")[0], None)
            elif isinstance(st, ast.ImportFrom):
                mod = st.module or ""
                if st.level:
                    parts = self.dotted.split(".")
                    parts = parts[: len(parts) - st.level]
                    mod = ".".join(parts + ([mod] if mod else []))
                for a in st.names:
                    self.names[a.asname or a.name] = ("import", mod, a.name)
            elif isinstance(st, ast.FunctionDef):
                self.names[st.name] = ("func", FuncInfo(st, self))
            elif isinstance(st, ast.ClassDef):
                self.names[st.name] = ("class", ClassInfo(st, self))
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.names[t.id] = ("const", st.value)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value:
                self.names[st.target.id] = ("const", st.value)
            elif isinstance(st, (ast.If, ast.Try)):
                self._scan(st.body)

    def lookup(self, name):
        """-> FuncInfo | ClassInfo | ModuleInfo | External | ('const', expr) | None"""
        e = self.names.get(name)
        if e is None:
            return None
        if e[0] == "import":
            return self.prog.import_name(e[1], e[2])
        if e[0] == "const":
            return e
        return e[1]

    def resolve_static(self, expr):
        if isinstance(expr, ast.Name):
            return self.lookup(expr.id)
        if isinstance(expr, ast.Attribute):
            b = self.resolve_static(expr.value)
            if isinstance(b, ModuleInfo):
                return b.lookup(expr.attr)
            if isinstance(b, External):
                return External(b.path + "." + expr.attr)
        return None


class Program:
    def __init__(self, root=None, package="dmpbbo"):
        self.root = root or REPO
        self.package = package
        self.modules = {}
        base = os.path.join(self.root, package)
        for d, dirs, files in os.walk(base):
            dirs.sort()
            for f in sorted(files):
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, self.root)[:-3].replace(os.sep, ".")
                    if rel.endswith(".__init__"):
                        rel = rel[: -len(".__init__")]
                    self.modules[rel] = ModuleInfo(self, rel, p)

    def import_name(self, mod, name, depth=0):
        if mod in self.modules:
            m = self.modules[mod]
            if name is None:
                return m
            if mod + "." + name in self.modules and name not in m.names:
                return self.modules[mod + "." + name]
            r = m.lookup(name)
            return r if r is not None else External(mod + "." + name)
        if name is None:
            return External(mod)
        if mod + "." + name in self.modules:
            return self.modules[mod + "." + name]
        return External(mod + "." + name)

    def all_classes(self):
        out = {}
        for m in self.modules.values():
            for e in m.names.values():
                if e[0] == "class":
                    out[e[1].name] = e[1]
        return out

    def cls(self, name):
        c = self.all_classes().get(name)
        if c is None:
            raise AnchorError(f"class {name} not found in the analysed sources")
        return c

    def func(self, dotted, name):
        m = self.modules.get(dotted)
        f = m and m.names.get(name)
        if not f or f[0] != "func":
            # moved? look anywhere
            for mm in self.modules.values():
                e = mm.names.get(name)
                if e and e[0] == "func":
                    return e[1]
            raise AnchorError(f"function {dotted}.{name} not found in the analysed sources")
        return f[1]


class AnchorError(Exception):
    """An entry point the rule is about has vanished: the analysis is broken, not the property."""
