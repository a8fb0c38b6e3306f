"""may-alias / may-modify analysis of parameters (flow-sensitive within a
function, summaries across the call graph)

A value is a set of roots (depth, origin): depth 0 - the value is (a part of)
the origin itself; depth n - the value is a new container, n levels deep, that
holds (parts of) the origin. An origin is
  ("param", name)   what the caller has passed
  ("attr", name)    what has been passed before and is kept in an attribute
  ("cached", name)  the value of a cached property or function"""
import ast
import re

from .model import dotted, unparse

MUT = {"append", "extend", "insert", "remove", "pop", "popitem", "sort", "reverse", "clear", "update", "setdefault", "add", "discard", "fill", "itemset", "resize",
       "__setitem__", "__delitem__", "__setattr__", "__delattr__", "__iadd__", "__ior__", "difference_update", "intersection_update", "symmetric_difference_update", "appendleft", "popleft", "extendleft", "move_to_end", "rename_axis_"}
INNER = {"get", "items", "values", "setdefault", "pop", "popitem", "__getitem__", "to_numpy", "ravel", "reshape", "view", "squeeze", "swapaxes", "transpose", "__iter__", "__enter__", "popleft", "__getattribute__"}
FRAME = {"loc", "iloc", "at", "iat", "values", "index", "columns", "T", "flat"}
PASS = {"asarray", "asanyarray", "ascontiguousarray", "atleast_1d", "atleast_2d", "ravel", "reshape", "squeeze", "transpose", "broadcast_to", "expand_dims", "getattr", "next", "max", "min", "vars", "cast", "proxy"}
HOLD = {"dict", "list", "tuple", "set", "frozenset", "sorted", "zip", "enumerate", "reversed", "iter", "filter", "map", "chain", "from_iterable", "islice", "cycle", "repeat", "product", "groupby", "defaultdict", "OrderedDict", "deque",
        "partial", "SimpleNamespace", "namedtuple", "ChainMap", "zip_longest", "starmap", "broadcast_arrays", "accumulate", "takewhile", "dropwhile"}
TABLES = {"dataset", "aux_data", "df", "res_df", "d1", "d2", "data"}
SETATTR = {"index", "columns", "name", "names", "values", "loc", "iloc", "shape", "dtype", "real", "imag", "attrs", "flags", "levels", "codes", "T", "flat"}
# attributes with data and definitions that queries only read
STATE = {"res_dict", "dataset", "aux_data", "_dataset", "_aux_data", "start_dict", "_start_dict", "fixed_dict", "_fixed_dict", "lsq_kwargs", "set_V_SRF", "reader_arg", "_reader_arg", "param_dict", "init_kwargs"}
# external functions that modify their first argument
MUTFIRST = {"copyto", "put", "fill_diagonal", "place", "putmask", "shuffle", "heappush", "heappop", "heapify", "heapreplace", "insort", "insort_left", "insort_right", "setitem", "delitem"}


ARRAYS = {"t_0", "t_ex", "p_0", "p_ex", "I0", "inc"}


def array_like(f, p):
    """a parameter that is (also) an array or a list, judged by the docstring, its default and its use"""
    doc = ast.get_docstring(f.node) or ""
    if f.node.name == "__init__" and f.cls is not None:
        doc += "\n" + (ast.get_docstring(f.cls.node) or "")
    for ln in doc.splitlines():
        if ":" in ln and p in [x.strip(" *") for x in ln.split(":")[0].split(",")]:
            kind = ln.split(":", 1)[1].lower()
            if re.search(r"array|list|ndarray|dataframe|series|numpy|matrix", kind):
                return True
            if re.search(r"\b(str|int|float|bool|string|scalar|path|integer|boolean)\b", kind):
                return False
    a = f.node.args
    ps = a.posonlyargs + a.args
    ds = dict(zip([x.arg for x in ps[len(ps) - len(a.defaults):]], a.defaults))
    ds.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
    d = ds.get(p)
    if isinstance(d, ast.Constant) and d.value is not None:
        return False
    if isinstance(d, (ast.List,)):
        return True
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call):
            fn = dotted(n.func) or ""
            direct = [x for x in n.args if isinstance(x, ast.Name) and x.id == p]
            if direct and fn.split(".")[0] in ("np", "numpy") and fn.split(".")[-1] not in ("sqrt",):
                return True
            if direct and fn in ("len", "sum", "sorted", "enumerate"):
                return True
            if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == p and n.func.attr in ("append", "reshape", "ravel", "astype", "mean", "dropna", "to_numpy"):
                return True
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == p and n.attr in ("shape", "size", "dtype", "T", "values", "loc", "iloc", "index"):
            return True
    return False


class Site:
    def __init__(self, origin, func, node, how, via=None):
        self.origin, self.func, self.node, self.how, self.via = origin, func, node, how, via

    def text(self):
        return f"{self.func.file}:{getattr(self.node, 'lineno', self.func.lineno)} {self.func.qual}: {self.how}" + (f" -> {self.via}" if self.via else "")


class Summary:
    def __init__(self):
        self.mut, self.ret, self.stores = {}, frozenset(), {}

    def state(self):
        return frozenset(self.mut), self.ret, frozenset((k, v) for k, v in self.stores.items())


def held(v):
    return frozenset((min(n + 1, 4), o) for n, o in v)


def part(v):
    return frozenset((max(n - 1, 0), o) for n, o in v)


def copied(v):
    return frozenset((max(n, 1), o) for n, o in v)


EMPTY = frozenset()


class Aliases:
    def __init__(self, P, kept=None):
        self.P = P
        self.funcs = {f.node: f for f in P.all_functions()}
        self.sum = {f.node: Summary() for f in self.funcs.values()}
        self.byname, self.props, self.ctor = {}, {}, {}
        for f in self.funcs.values():
            if f.cls is not None and f.parent is None:
                d = self.props if f.is_property or f.is_cached else self.byname
                if not any(isinstance(x, ast.Attribute) and x.attr == "setter" for x in f.node.decorator_list):
                    d.setdefault(f.node.name, []).append(f)
        self.setters = {}
        for f in self.funcs.values():
            if any(isinstance(x, ast.Attribute) and x.attr == "setter" for x in f.node.decorator_list):
                self.setters.setdefault(f.node.name, []).append(f)
        self.attrs = {k: {0: "state of a fit"} for k in STATE}  # attribute -> roots kinds that are kept of what callers pass
        self.sites = {}
        for _ in range(12):
            before = ({n: s.state() for n, s in self.sum.items()}, {k: frozenset(v) for k, v in self.attrs.items()})
            self.sites = {}
            for f in self.funcs.values():
                if f.parent is None:
                    Walk(self, f).run()
            if before == ({n: s.state() for n, s in self.sum.items()}, {k: frozenset(v) for k, v in self.attrs.items()}):
                break

    def callees(self, call, walk):
        """package functions that may be called: [(func, skip_first)]"""
        fn = call.func
        if isinstance(fn, ast.Name):
            if fn.id in walk.local:
                return [(walk.local[fn.id], 0)]
            r = self.P.resolve(walk.f.module, fn.id)
            return self.target(r)
        if isinstance(fn, ast.Attribute):
            d = dotted(fn)
            if d:
                head = d.split(".")[0]
                if head == "self" and walk.f.cls is not None and d.count(".") == 1:
                    m = self.P.find_method(walk.f.cls, fn.attr)
                    if m is not None:
                        return [(m, 0 if m.is_static else 1)]
                if head == "super()" or (head not in ("self", "cls") and head not in walk.env):
                    r = self.P.resolve(walk.f.module, head)
                    for x in d.split(".")[1:]:
                        if isinstance(r, type(walk.f.module)):
                            r = r.functions.get(x) or r.classes.get(x)
                        elif hasattr(r, "mro") or type(r).__name__ == "Cls":
                            r = self.P.find_method(r, x)
                        else:
                            r = None
                    t = self.target(r)
                    if t:
                        return t
            if isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super" and walk.f.cls is not None:
                for c in self.P.mro(walk.f.cls)[1:]:
                    m = c.methods.get(fn.attr) if hasattr(c, "methods") else None
                    if m is not None:
                        return [(m, 1)]
                return []
            if fn.attr in MUT | INNER | {"copy", "join", "format", "split"}:
                return []
            return [(m, 0 if m.is_static else 1) for m in self.byname.get(fn.attr, ())]
        return []

    def target(self, r):
        if r is None:
            return []
        if type(r).__name__ == "Func":
            return [(r, 1 if r.cls is not None and not r.is_static else 0)]
        if type(r).__name__ == "Cls":
            m = self.P.find_method(r, "__init__")
            return [(m, 1)] if m is not None else []
        return []


class Walk:
    def __init__(self, A, f, env=None, outer=None):
        self.A, self.f, self.env, self.outer = A, f, dict(env or {}), outer
        self.local, self.masks = dict(outer.local) if outer else {}, set()
        self.indexes = set()
        self.rets = set()
        a = f.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            self.env[x.arg] = frozenset({(0, ("param", x.arg))}) if outer is None else EMPTY
        for x in (a.vararg, a.kwarg):
            if x is not None:
                self.env[x.arg] = frozenset({(1, ("param", x.arg))}) if outer is None else EMPTY

    @property
    def s(self):
        return (self.outer or self).A.sum[(self.outer or self).f.node] if self.outer is None else self.outer.s

    def run(self):
        self.block(self.f.node.body)
        if self.outer is None:
            self.s.ret = frozenset(self.rets)

    # ---------------------------------------------------------- statements
    def block(self, body):
        for st in body:
            self.stmt(st)

    def join(self, a, b):
        return {k: a.get(k, EMPTY) | b.get(k, EMPTY) for k in a.keys() | b.keys() if "." not in k or (k in a and k in b)}

    def stmt(self, st):
        if isinstance(st, ast.Assign):
            v = self.ev(st.value)
            for t in st.targets:
                self.assign(t, v, st.value)
        elif isinstance(st, ast.AnnAssign):
            if st.value is not None:
                self.assign(st.target, self.ev(st.value), st.value)
        elif isinstance(st, ast.AugAssign):
            self.ev(st.value)
            if isinstance(st.target, ast.Name):
                self.mutate(self.env.get(st.target.id, EMPTY), st, f"{unparse(st)[:60]}", aug=st)
            else:
                self.change(st.target, st)
                self.mutate(self.ev(st.target), st, f"{unparse(st)[:60]}", aug=st)
        elif isinstance(st, ast.Delete):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    self.env.pop(t.id, None)
                else:
                    self.change(t, st)
        elif isinstance(st, ast.Expr):
            self.ev(st.value)
        elif isinstance(st, ast.Return):
            if st.value is not None:
                self.rets |= self.ev(st.value)
        elif isinstance(st, ast.If):
            self.ev(st.test)
            e0 = dict(self.env)
            self.block(st.body)
            e1, self.env = self.env, e0
            self.block(st.orelse)
            if self.leaves(st.body):
                pass
            elif st.orelse and self.leaves(st.orelse):
                self.env = e1
            else:
                self.env = self.join(e1, self.env)
        elif isinstance(st, (ast.For, ast.AsyncFor)):
            v = self.ev(st.iter)
            for _ in range(2):
                e0 = dict(self.env)
                self.assign(st.target, part(v), None)
                self.block(st.body)
                self.env = self.join(e0, self.env)
            self.block(st.orelse)
        elif isinstance(st, ast.While):
            for _ in range(2):
                e0 = dict(self.env)
                self.ev(st.test)
                self.block(st.body)
                self.env = self.join(e0, self.env)
            self.block(st.orelse)
        elif isinstance(st, (ast.With, ast.AsyncWith)):
            for it in st.items:
                v = self.ev(it.context_expr)
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, None)
            self.block(st.body)
        elif isinstance(st, ast.Try):
            e0 = dict(self.env)
            self.block(st.body)
            self.block(st.orelse)
            e1 = self.env
            mid = self.join(e0, e1)
            out = e1
            for h in st.handlers:
                self.env = dict(mid)
                if h.name:
                    self.env[h.name] = EMPTY
                self.block(h.body)
                if not self.leaves(h.body):
                    out = self.join(out, self.env)
            self.env = out
            self.block(st.finalbody)
        elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            f = self.A.funcs.get(st)
            self.env[st.name] = EMPTY
            if f is not None:
                self.local[st.name] = f
                self.nested(f, {})
        elif isinstance(st, (ast.Assert, ast.Raise)):
            for x in ast.iter_child_nodes(st):
                if isinstance(x, ast.expr):
                    self.ev(x)

    def leaves(self, body):
        return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))

    def nested(self, f, args):
        depth, o = 0, self
        while o is not None:
            depth, o = depth + 1, o.outer
        if depth > 4:
            return EMPTY
        w = Walk(self.A, f, self.env, self)
        w.env.update(args)
        w.block(f.node.body)
        return frozenset(w.rets)

    def assign(self, t, v, value):
        if isinstance(t, ast.Name):
            self.env[t.id] = v
            for k in [k for k in self.env if k.startswith(t.id + ".")]:
                del self.env[k]
            if value is not None and isinstance(value, (ast.Compare, ast.BoolOp, ast.UnaryOp, ast.BinOp, ast.List, ast.ListComp, ast.Call, ast.Constant)) and not (
                    isinstance(value, ast.Constant) and isinstance(value.value, str)):
                self.masks.add(t.id)
            else:
                self.masks.discard(t.id)
            self.indexes.discard(t.id)
            if isinstance(value, ast.Attribute) and value.attr in ("index", "columns"):
                self.indexes.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts):
                vs = [self.ev(x) for x in value.elts]
                for x, y, z in zip(t.elts, vs, value.elts):
                    self.assign(x, y, z)
            else:
                for x in t.elts:
                    self.assign(x, part(v), None)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, held(v), None)
        elif isinstance(t, ast.Attribute):
            self.change(t, t)
            self.keep(t, v)
            if isinstance(t.value, ast.Name):
                # (what has just been put there by this function)
                if any(o == ("param", "self") for _, o in v):
                    self.env.pop(f"{t.value.id}.{t.attr}", None)
                else:
                    self.env[f"{t.value.id}.{t.attr}"] = v
        elif isinstance(t, ast.Subscript):
            self.change(t, t)
            self.put(t.value, held(v))
            self.ev(t.slice)

    def put(self, base, v):
        """something is put into the container `base`"""
        while isinstance(base, ast.Subscript):
            base, v = base.value, held(v)
        if isinstance(base, ast.Name) and base.id in self.env and v and base.id not in ("self", "cls"):
            self.env[base.id] = self.env[base.id] | v

    def keep(self, t, v):
        """obj.name = v: what callers have passed is kept in the attribute"""
        own = self.outer
        f = self.f
        while own is not None:
            f, own = own.f, own.outer
        name = t.attr
        if name in FRAME or name in SETATTR or name.startswith("__"):
            return
        for k, o in v:
            if o[0] == "param" and o[1] not in ("self", "cls") and self.kept(f, o[1]):
                self.A.attrs.setdefault(name, {}).setdefault(k, f"{f.qual}({o[1]})")
            elif o[0] == "attr":
                src = self.A.attrs.get(o[1])
                if src and name != o[1]:
                    self.A.attrs.setdefault(name, {}).setdefault(k, next(iter(src.values())))
        # (a setter of the package gets the value)
        for m in self.A.setters.get(name, ()):
            self.flow(m, [None, v], {}, t)

    def kept(self, f, p):
        return True

    def change(self, t, node):
        """the object that holds the target t is modified"""
        if isinstance(t, ast.Attribute):
            v = self.ev(t.value)
            if t.attr in SETATTR:
                self.mutate(v, node, f"{unparse(t)[:60]} is set")
        elif isinstance(t, ast.Subscript):
            v = self.ev(t.value)
            self.mutate(v, node, f"{unparse(t)[:60]} is set")
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.change(x, node)

    def mutate(self, v, node, how, via=None, attr=None, aug=None):
        own, f = self, self.f
        while own.outer is not None:
            own = own.outer
        for k, o in v:
            if k != 0 or o in (("param", "self"), ("param", "cls")):
                continue
            if aug is not None and not self.inplace(own.f, o, aug):
                continue
            site = Site(o, self.f, node, how, via)
            if o[0] == "param":
                own.s.mut.setdefault(o, site)
            elif own.f.node.name not in ("__update__", "__setstate__", "__getstate__"):
                # (which re-create the state of an object)
                self.A.sites.setdefault((o, self.f.qual, how), site)

    def inplace(self, f, o, st):
        """an augmented assignment modifies an object only if it is an array or a list"""
        t = st.target
        if isinstance(st.value, (ast.JoinedStr,)) or (isinstance(st.value, ast.Constant) and isinstance(st.value.value, str)):
            return False
        if o[0] != "param":
            return o[1] in STATE | ARRAYS
        if isinstance(t, ast.Subscript):
            return o[1] in STATE | ARRAYS
        return array_like(f, o[1])

    # --------------------------------------------------------- expressions
    def ev(self, e):
        if e is None or isinstance(e, ast.Constant):
            return EMPTY
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is not None:
            return m(e)
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.expr):
                self.ev(x)
        return EMPTY

    def e_Name(self, e):
        return self.env.get(e.id, EMPTY)

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v, e.value)
        return v

    def e_Attribute(self, e):
        v = self.ev(e.value)
        if isinstance(e.value, ast.Name) and f"{e.value.id}.{e.attr}" in self.env:
            return self.env[f"{e.value.id}.{e.attr}"]
        r = set()
        for k, o in v:
            r.add((k, o))
        if e.attr in self.A.props and e.attr not in FRAME | SETATTR:
            # a property of the package
            r2 = set()
            for m in self.A.props[e.attr]:
                if m.is_cached:
                    r2.add((0, ("cached", e.attr)))
                    continue
                for k, o in self.A.sum[m.node].ret:
                    if o == ("param", "self"):
                        r2 |= {(min(k + n, 4), x) for n, x in v if x != ("param", "self")}
                    elif o[0] != "param":
                        r2.add((k, o))
            return frozenset(r2)
        kinds = self.A.attrs.get(e.attr)
        if kinds and not (isinstance(e.value, ast.Name) and e.value.id in ("np", "pd", "plt", "mp")):
            # (the attributes of the own object are not the own object)
            r = {x for x in r if x[1] != ("param", "self")} | {(k, ("attr", e.attr)) for k in kinds}
        return frozenset(r)

    def e_Subscript(self, e):
        v = self.ev(e.value)
        self.ev(e.slice)
        i = e.slice
        if (isinstance(e.value, ast.Attribute) and e.value.attr in ("index", "columns") or isinstance(e.value, ast.Name) and e.value.id in self.indexes) \
                and not isinstance(i, ast.Slice):
            return EMPTY
        if isinstance(i, ast.Slice):
            return frozenset((max(k, 1), o) for k, o in v)
        if isinstance(i, (ast.Compare, ast.List, ast.BoolOp, ast.ListComp, ast.BinOp)) or (isinstance(i, ast.UnaryOp) and not isinstance(i.operand, ast.Constant)):
            if not (isinstance(i, ast.BinOp) and self.strlike(i)):
                return EMPTY if not isinstance(i, ast.BinOp) else part(v)
        if isinstance(i, ast.Name) and i.id in self.masks and self.tablelike(e.value):
            return EMPTY
        return part(v)

    @staticmethod
    def strlike(i):
        return any(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in ast.walk(i))

    @staticmethod
    def tablelike(e):
        while isinstance(e, (ast.Attribute, ast.Subscript, ast.Call)):
            if isinstance(e, ast.Attribute) and (e.attr in TABLES or e.attr in FRAME):
                return True
            e = e.func if isinstance(e, ast.Call) else e.value
        return isinstance(e, ast.Name) and e.id in TABLES

    def e_IfExp(self, e):
        self.ev(e.test)
        return self.ev(e.body) | self.ev(e.orelse)

    def e_BoolOp(self, e):
        r = EMPTY
        for x in e.values:
            r |= self.ev(x)
        return r

    def elements(self, xs):
        r = EMPTY
        for x in xs:
            if x is None:
                continue
            r |= copied(self.ev(x.value)) if isinstance(x, ast.Starred) else held(self.ev(x))
        return r

    def e_List(self, e):
        return self.elements(e.elts)

    e_Tuple = e_Set = e_List

    def e_Dict(self, e):
        self.elements([k for k in e.keys if k is not None])
        r = EMPTY
        for k, v in zip(e.keys, e.values):
            r |= copied(self.ev(v)) if k is None else held(self.ev(v))
        return r

    def comp(self, e, outs):
        saved = dict(self.env)
        for g in e.generators:
            self.assign(g.target, part(self.ev(g.iter)), None)
            for c in g.ifs:
                self.ev(c)
        r = self.elements(outs)
        self.env = saved
        return r

    def e_ListComp(self, e):
        return self.comp(e, [e.elt])

    e_SetComp = e_GeneratorExp = e_ListComp

    def e_DictComp(self, e):
        return self.comp(e, [e.value])

    def e_Starred(self, e):
        return self.ev(e.value)

    def e_Yield(self, e):
        if e.value is not None:
            self.rets |= held(self.ev(e.value))
        return EMPTY

    def e_YieldFrom(self, e):
        self.rets |= copied(self.ev(e.value))
        return EMPTY

    def e_Lambda(self, e):
        saved = dict(self.env)
        for x in e.args.posonlyargs + e.args.args + e.args.kwonlyargs + [y for y in (e.args.vararg, e.args.kwarg) if y]:
            self.env[x.arg] = EMPTY
        self.ev(e.body)
        self.env = saved
        return EMPTY

    def e_Call(self, e):
        fn = e.func
        recv = self.ev(fn.value) if isinstance(fn, ast.Attribute) else EMPTY
        name = fn.attr if isinstance(fn, ast.Attribute) else fn.id if isinstance(fn, ast.Name) else ""
        if not isinstance(fn, (ast.Attribute, ast.Name)):
            self.ev(fn)
        pos = [self.ev(a) for a in e.args]
        kws = [(k.arg, self.ev(k.value)) for k in e.keywords]
        cs = self.A.callees(e, self)
        if cs:
            r = EMPTY
            for f, skip in cs:
                if f.parent is not None and isinstance(fn, ast.Name):
                    names = [x.arg for x in f.node.args.posonlyargs + f.node.args.args]
                    b = dict(zip(names, pos))
                    b.update({k: v for k, v in kws if k in names})
                    r |= self.nested(f, b)
                    continue
                init = f.node.name == "__init__" and not (isinstance(fn, ast.Attribute) and fn.attr == "__init__")
                stars = [isinstance(a, ast.Starred) for a in e.args]
                args = ([EMPTY if init else recv] if skip else []) + pos
                r |= self.flow(f, args, dict((k, v) for k, v in kws if k), e, star=[v for k, v in kws if k is None] + [v for v, s in zip(pos, stars) if s], method=name)
                if init:
                    # the new object holds what it got
                    for v in pos + [v for _, v in kws]:
                        pass
            return r
        # ---- not in the package
        if isinstance(fn, ast.Attribute):
            inplace = any(k.arg == "inplace" and not (isinstance(k.value, ast.Constant) and k.value.value is False) for k in e.keywords)
            if (name in MUT or inplace) and not (name == "fill" and len(pos) + len(kws) > 1):
                self.mutate(recv, e, f"{unparse(e)[:60]}")
                add = EMPTY
                for v in (pos[1:] if name == "setdefault" else pos) + [v for _, v in kws]:
                    add |= copied(v) if name in ("extend", "update", "extendleft") else held(v)
                self.put(fn.value, add)
        for k, v in kws:
            if k == "out":
                self.mutate(v, e, f"{unparse(e)[:60]}")
        if name in MUTFIRST and pos and (isinstance(fn, ast.Name) or (isinstance(fn.value, (ast.Name, ast.Attribute)) and (dotted(fn) or "").split(".")[0] in ("np", "numpy", "random", "heapq", "bisect", "operator"))):
            self.mutate(pos[0], e, f"{unparse(e)[:60]}")
        d = dotted(fn) or name
        if d.split(".")[0] in ("dict", "list", "set", "object") and name in MUT and pos:
            self.mutate(pos[0], e, f"{unparse(e)[:60]}")
        if name == "deepcopy":
            return EMPTY
        if d in ("copy.copy", "copy") and pos:
            return copied(pos[0])
        if isinstance(fn, ast.Attribute) and name in ("get", "pop", "setdefault") and len(pos) > 1:
            return part(recv) | pos[1]
        if isinstance(fn, ast.Attribute) and recv:
            if name == "copy":
                return EMPTY if self.tablelike(fn.value) else copied(recv)
            if name == "items":
                return frozenset((k + 1 if k else 1, o) for k, o in recv)
            if name in ("values", "__iter__"):
                return copied(recv)
            if name in INNER:
                return part(recv) if name not in ("to_numpy", "ravel", "reshape", "view", "squeeze", "swapaxes", "transpose", "__enter__") else recv
            return EMPTY
        if name in PASS:
            r = EMPTY
            for v in pos[:1]:
                r |= part(v) if name in ("next", "max", "min", "getattr", "vars") else v
            return r
        if name in ("dict", "list", "tuple", "set", "frozenset", "sorted", "reversed", "iter", "filter", "islice", "cycle", "chain", "OrderedDict", "deque", "defaultdict"):
            r = EMPTY
            for v in pos:
                r |= copied(v)
            for k, v in kws:
                r |= held(v) if k else copied(v)
            return r
        if name in ("zip", "enumerate", "product", "groupby", "zip_longest"):
            r = EMPTY
            for v in pos:
                r |= held(copied(v))
            return r
        if name in HOLD:
            r = EMPTY
            for v in pos + [v for _, v in kws]:
                r |= held(v)
            return r
        return EMPTY

    def flow(self, f, args, kws, node, star=(), method=""):
        """arguments into a package function; its effects on them"""
        s = self.A.sum[f.node]
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        b = {}
        for i, v in enumerate(args):
            if v is None:
                continue
            n = names[i] if i < len(names) else (a.vararg.arg if a.vararg else None)
            if n:
                b[n] = b.get(n, EMPTY) | (v if i < len(names) else held(v))
        allnames = names + [x.arg for x in a.kwonlyargs]
        for k, v in kws.items():
            n = k if k in allnames else (a.kwarg.arg if a.kwarg else None)
            if n:
                b[n] = b.get(n, EMPTY) | (v if k in allnames else held(v))
        for v in star:
            for n in allnames:
                b[n] = b.get(n, EMPTY) | part(v)
            if a.kwarg:
                b[a.kwarg.arg] = b.get(a.kwarg.arg, EMPTY) | held(v)
        for (_, p), site in list(s.mut.items()):
            if p in b:
                rest = p in (a.vararg and a.vararg.arg, a.kwarg and a.kwarg.arg)
                self.mutate(part(b[p]) if rest else b[p], node, f"{unparse(node)[:60]}", via=f"{site.text()}")
        r = set()
        for k, o in s.ret:
            if o[0] != "param":
                r.add((k, o))
            elif o[1] in b:
                for k2, o2 in b[o[1]]:
                    # (the result may be the argument or only a part of it)
                    r.add((min(k + k2, 4), o2))
        return frozenset(r)
