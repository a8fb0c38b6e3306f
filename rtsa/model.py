"""Program model: modules, classes, functions, properties and name resolution."""
import ast
import os

REPO = os.environ.get("RTSA_REPO", "/repo")
PKG = "rt1"


class AnalysisBroken(Exception):
    """an anchor the analysis needs is gone / outside the supported language"""


class Func:
    def __init__(self, node, module, cls=None, parent=None):
        self.node, self.module, self.cls, self.parent = node, module, cls, parent
        self.name = getattr(node, "name", "<lambda>")
        self.decorators = [unparse(d) for d in getattr(node, "decorator_list", [])]

    @property
    def qual(self):
        p = f"{self.module.name}."
        if self.cls is not None:
            p += self.cls.name + "."
        if self.parent is not None:
            p += self.parent.name + ".<locals>."
        return p + self.name

    @property
    def file(self):
        return self.module.path

    @property
    def lineno(self):
        return self.node.lineno

    @property
    def is_static(self):
        return any(d == "staticmethod" for d in self.decorators)

    @property
    def is_classmethod(self):
        return any(d == "classmethod" for d in self.decorators)

    @property
    def is_property(self):
        return any(
            d.split("(")[0].split(".")[-1] in ("property", "cached_property")
            for d in self.decorators
        )

    @property
    def is_cached(self):
        return any(
            d.split("(")[0].split(".")[-1] in ("lru_cache", "cache", "cached_property")
            for d in self.decorators
        )

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def defaults(self):
        a = self.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        d = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        d.update({k.arg: v for k, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
        return d

    def __repr__(self):
        return f"<Func {self.qual}>"


class Cls:
    def __init__(self, node, module):
        self.node, self.module, self.name = node, module, node.name
        self.methods = {}
        self.setters = {}     # property name -> Func
        self.props = {}       # property name -> getter Func
        self.attrs = {}       # class-level assignments name -> ast expr
        self.base_exprs = node.bases
        self._fill()

    def _fill(self):
        for st in self.node.body:
            self._stmt(st)

    def _stmt(self, st):
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            f = Func(st, self.module, self)
            setter = [d for d in f.decorators if d.endswith(".setter")]
            if setter:
                self.setters[setter[0][: -len(".setter")]] = f
            elif f.is_property:
                self.props[st.name] = f
                self.methods[st.name] = f
            else:
                self.methods[st.name] = f
        elif isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(
            st.targets[0], ast.Name
        ):
            nm = st.targets[0].id
            v = st.value
            if (
                isinstance(v, ast.Call)
                and isinstance(v.func, ast.Name)
                and v.func.id == "property"
            ):
                got = v.args[:1] + [k.value for k in v.keywords if k.arg == "fget"]
                st_ = v.args[1:2] + [k.value for k in v.keywords if k.arg == "fset"]
                if got and isinstance(got[0], ast.Name) and got[0].id in self.methods:
                    self.props[nm] = self.methods[got[0].id]
                if st_ and isinstance(st_[0], ast.Name) and st_[0].id in self.methods:
                    self.setters[nm] = self.methods[st_[0].id]
            self.attrs[nm] = v
        elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value:
            self.attrs[st.target.id] = st.value

    @property
    def qual(self):
        return f"{self.module.name}.{self.name}"

    def __repr__(self):
        return f"<Cls {self.qual}>"


class Module:
    def __init__(self, name, path, src):
        self.name, self.path, self.src = name, path, src
        self.tree = ast.parse(src, path)
        for n in ast.walk(self.tree):
            for c in ast.iter_child_nodes(n):
                c._parent = n
        self.imports = {}    # local name -> dotted target
        self.functions = {}
        self.classes = {}
        self.globals = {}
        self._scan(self.tree.body)
        top = {id(c.node) for c in self.classes.values()}
        # classes defined inside of a class
        self.nested = {}
        for n in ast.walk(self.tree):
            if isinstance(n, ast.ClassDef) and id(n) not in top and isinstance(n._parent, ast.ClassDef):
                self.nested[f"{n._parent.name}.{n.name}"] = Cls(n, self)

    def _scan(self, body):
        pkg = self.name.split(".")[0]
        for st in body:
            if isinstance(st, ast.Import):
                for a in st.names:
                    self.imports[a.asname or a.name.split(".")[0]] = (
                        a.name if a.asname else a.name.split(".")[0]
                    )
            elif isinstance(st, ast.ImportFrom):
                base = st.module or ""
                if st.level:
                    base = pkg + ("." + base if base else "")
                for a in st.names:
                    self.imports[a.asname or a.name] = f"{base}.{a.name}"
            elif isinstance(st, ast.FunctionDef):
                self.functions[st.name] = Func(st, self)
            elif isinstance(st, ast.ClassDef):
                self.classes[st.name] = Cls(st, self)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.globals[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                if st.value is not None:
                    self.globals[st.target.id] = st.value
            elif isinstance(st, (ast.Try, ast.If, ast.With)):
                # first alternative wins for imports
                for sub in ("finalbody", "orelse"):
                    self._scan(getattr(st, sub, []) or [])
                for h in getattr(st, "handlers", []) or []:
                    self._scan(h.body)
                self._scan(st.body)


class Project:
    def __init__(self, root=None):
        self.root = root or REPO
        self.modules = {}
        pkgdir = os.path.join(self.root, PKG)
        if not os.path.isdir(pkgdir):
            raise AnalysisBroken(f"package {PKG} not found in {self.root}")
        for dirpath, dirs, files in os.walk(pkgdir):
            dirs.sort()
            for f in sorted(files):
                if f.endswith(".py"):
                    p = os.path.join(dirpath, f)
                    rel = os.path.relpath(p, self.root)[:-3].replace(os.sep, ".")
                    if rel.endswith(".__init__"):
                        rel = rel[: -len(".__init__")]
                    with open(p, encoding="utf-8") as fh:
                        src = fh.read()
                    m = Module(rel, os.path.relpath(p, self.root), src)
                    self.modules[rel] = m

    # ---------------------------------------------------------------- lookup
    def module(self, name):
        n = PKG if name == "" else (name if name.startswith(PKG + ".") else f"{PKG}.{name}")
        if n not in self.modules:
            raise AnalysisBroken(f"module {n} not found")
        return self.modules[n]

    def resolve(self, module, name, depth=0):
        """resolve a global name in ``module`` to Func/Cls/('ext', dotted)/expr"""
        if depth > 8:
            return None
        if name in module.functions:
            return module.functions[name]
        if name in module.classes:
            return module.classes[name]
        if name in module.globals:
            return ("global", module, name, module.globals[name])
        if name in module.imports:
            return self.resolve_dotted(module.imports[name], depth + 1)
        return None

    def resolve_dotted(self, dotted, depth=0):
        if dotted in self.modules:
            return self.modules[dotted]
        head, _, tail = dotted.rpartition(".")
        if head in self.modules:
            r = self.resolve(self.modules[head], tail, depth + 1)
            if r is not None:
                return r
        return ("ext", dotted)

    def cls(self, name, module=None):
        """find class by (module.)name"""
        if "." in name:
            m, _, n = name.rpartition(".")
            mod = self.module(m)
            if n in mod.classes:
                return mod.classes[n]
            raise AnalysisBroken(f"class {name} not found")
        for m in self.modules.values():
            if name in m.classes:
                return m.classes[name]
        for m in self.modules.values():
            for c in m.nested.values():
                if c.name == name:
                    return c
        raise AnalysisBroken(f"class {name} not found")

    def func(self, qual):
        """'rt1.RT1.calc' or 'rtfits.load' relative to the package"""
        parts = qual.split(".")
        mod = self.module(parts[0])
        if len(parts) == 2:
            if parts[1] in mod.functions:
                return mod.functions[parts[1]]
            r = self.resolve(mod, parts[1])
            if isinstance(r, Func):
                return r
        else:
            c = self.cls(".".join(parts[:2]))
            f = self.find_method(c, parts[2])
            if f:
                return f
        raise AnalysisBroken(f"function {qual} not found")

    def bases(self, c):
        out = []
        for b in c.base_exprs:
            r = None
            if isinstance(b, ast.Name):
                r = self.resolve(c.module, b.id)
            elif isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name):
                m = self.resolve(c.module, b.value.id)
                if isinstance(m, Module):
                    r = self.resolve(m, b.attr)
            if isinstance(r, Cls):
                out.append(r)
        return out

    def mro(self, c):
        out, todo = [], [c]
        while todo:
            x = todo.pop(0)
            if x not in out:
                out.append(x)
                todo = self.bases(x) + todo
        return out

    def subclasses(self, c, strict=True):
        out = []
        for m in self.modules.values():
            for k in m.classes.values():
                if c in self.mro(k) and (k is not c or not strict):
                    out.append(k)
        return out

    def find_method(self, c, name):
        for k in self.mro(c):
            if name in k.methods:
                return k.methods[name]
            if name in k.props:
                return k.props[name]
        return None

    def find_prop(self, c, name):
        for k in self.mro(c):
            if name in k.props:
                return k.props[name]
            if name in k.methods or name in k.attrs:
                return None
        return None

    def find_setter(self, c, name):
        for k in self.mro(c):
            if name in k.setters:
                return k.setters[name]
        return None

    def find_attr(self, c, name):
        for k in self.mro(c):
            if name in k.attrs:
                return k.attrs[name], k
        return None

    def all_functions(self):
        """every def in the package incl. nested ones (Func objects)"""
        out = []
        for m in self.modules.values():
            def rec(node, cls, parent):
                for ch in ast.iter_child_nodes(node):
                    if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        f = Func(ch, m, cls, parent)
                        out.append(f)
                        rec(ch, None, f)
                    elif isinstance(ch, ast.ClassDef):
                        c = [x for x in [m.classes.get(ch.name), *m.nested.values()] if x is not None and x.node is ch]
                        rec(ch, c[0] if c else Cls(ch, m), parent)
                    else:
                        rec(ch, cls, parent)
            rec(m.tree, None, None)
        return out


def unparse(n):
    try:
        return ast.unparse(n)
    except Exception:
        return "<?>"


def dotted(node):
    """a.b.c -> 'a.b.c' or None"""
    parts = []
    while isinstance(node, ast.Attribute):
        parts.append(node.attr)
        node = node.value
    if isinstance(node, ast.Name):
        parts.append(node.id)
        return ".".join(reversed(parts))
    return None


def enclosing_function(node):
    while node is not None:
        node = getattr(node, "_parent", None)
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            return node
    return None


def walk_own(fn_node):
    """walk a function body without entering nested function/class bodies"""
    todo = list(fn_node.body) if hasattr(fn_node, "body") and isinstance(
        fn_node.body, list
    ) else [fn_node.body]
    while todo:
        n = todo.pop(0)
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        todo = list(ast.iter_child_nodes(n)) + todo
