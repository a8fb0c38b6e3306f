"""P11: a fit re-created from its definition is the same fit;  P21: a stored fit comes back with the same definition, data and results"""
import ast

from rtsa import vn
from rtsa.alg import sym
from rtsa.model import AnalysisBroken, unparse
from rtsa.report import Report

from .effects import Thing
from .process import AttrDict, Fn, Frame, Proc, same


class Attrs(AttrDict):
    @property
    def heap(self):
        return self.ev.heap


class Sym(vn.ModelObj):
    """a sympy expression: text, names of the free symbols"""

    def __init__(self, text, free=None):
        self.text = text
        self.free = tuple([text] if free is None else free)

    def key(self):
        return f"sympy[{self.text}]"

    def attr(self, ev, name, env):
        if name == "free_symbols":
            return PySet(Sym(n) for n in self.free)
        if name == "name" and self.free == (self.text,):
            return self.text
        return NotImplemented

    def method(self, ev, name, args, kw, env):
        if name in ("xreplace", "subs") and len(args) == 1 and isinstance(args[0], (vn.Seq, vn.IterV)):
            ps = [ev.concrete(p) for p in ev.concrete(args[0])]
            if all(p is not None and len(p) == 2 for p in ps):
                args = [vn.DictV({vn.key(k): v for k, v in ps})]
        if name in ("xreplace", "subs") and len(args) == 1 and isinstance(args[0], vn.DictV):
            return self.put({(k if isinstance(k, str) else vn.key(k)).removeprefix("sympy[").removesuffix("]"): v for k, v in args[0].d.items()})
        return NotImplemented

    def put(self, mp):
        mp = {k: v for k, v in mp.items() if k in self.free}
        if not mp:
            return self
        if self.free == (self.text,):
            return mp[self.text]
        free = [f for f in self.free if f not in mp] + [x for v in mp.values() if isinstance(v, Sym) for x in v.free]
        return Sym(f"{self.text}|{','.join(f'{k}={vn.key(v)}' for k, v in sorted(mp.items()))}", free)


class TooMany(Exception):
    pass


class PySet(vn.ModelObj):
    """a set of values with known identity"""

    def __init__(self, items=()):
        self.d = {vn.key(x): x for x in items}

    def key(self):
        return "{" + ",".join(sorted(self.d)) + "}"

    def iter(self, ev):
        return list(self.d.values())

    def contains(self, ev, x):
        return vn.key(x) in self.d

    def items_of(self, ev, x):
        c = ev.concrete(x)
        if c is None:
            raise vn.Undecided("set operand")
        return PySet(c)

    OPS = {"union": "|", "difference": "-", "intersection": "&", "symmetric_difference": "^"}

    def op(self, o, other):
        a, b = self.d, other.d
        k = {"|": {**a, **b}, "-": {x: v for x, v in a.items() if x not in b}, "&": {x: v for x, v in a.items() if x in b},
             "^": {x: v for x, v in {**a, **b}.items() if (x in a) != (x in b)}}[o]
        r = PySet()
        r.d = k
        return r

    def binop(self, ev, op, other, swapped):
        o = {ast.BitOr: "|", ast.Sub: "-", ast.BitAnd: "&", ast.BitXor: "^"}.get(type(op))
        if o is None or not isinstance(other, PySet):
            return NotImplemented
        return other.op(o, self) if swapped else self.op(o, other)

    def compare(self, ev, op, other):
        if isinstance(other, PySet) and isinstance(op, (ast.Eq, ast.NotEq)):
            return (set(self.d) == set(other.d)) == isinstance(op, ast.Eq)
        return NotImplemented

    def method(self, ev, name, args, kw, env):
        if name in self.OPS:
            r = self
            for a in args:
                r = r.op(self.OPS[name], self.items_of(ev, a))
            return r
        if name == "update":
            for a in args:
                self.d.update(self.items_of(ev, a).d)
            return None
        if name == "difference_update":
            for a in args:
                for x in self.items_of(ev, a).d:
                    self.d.pop(x, None)
            return None
        if name == "add":
            self.d[vn.key(args[0])] = args[0]
            return None
        if name in ("discard", "remove"):
            if self.d.pop(vn.key(args[0]), self) is self and name == "remove":
                raise vn.PyRaise("KeyError")
            return None
        if name == "clear":
            self.d.clear()
            return None
        if name == "copy":
            return PySet(self.d.values())
        if name in ("issubset", "issuperset", "isdisjoint"):
            o = set(self.items_of(ev, args[0]).d)
            return getattr(set(self.d), name)(o)
        return NotImplemented


class Raw(vn.ModelObj):
    """object.__setattr__ / object.__getattribute__ (bound or not)"""

    def __init__(self, what, obj=None):
        self.what, self.obj = what, obj

    def call(self, ev, args, kw, env):
        a = ([] if self.obj is None else [self.obj]) + list(args)
        if self.what == "set":
            ev.rawset(a[0], a[1], a[2], env)
            return None
        if self.what == "del":
            ev.drop(a[0], a[1])
            return None
        return ev.rawget(a[0], a[1], env)


RAW = {"__setattr__": "set", "__getattribute__": "get", "__delattr__": "del"}
NUMS = (int, float)


class Dunder(Proc):
    """evaluator which follows the attribute- and item-protocols of the classes"""

    def __init__(self, P):
        super().__init__(P)
        self.instantiate, self.maxdepth = True, 60
        self.made_paths, self.heap, self.top, self.node = set(), {}, None, None
        E = self.ext
        E["copy.deepcopy"] = lambda ev, a, k: ev.deep(a[0])
        E["copy.copy"] = lambda ev, a, k: vn.Seq(a[0].items, a[0].kind) if isinstance(a[0], vn.Seq) else vn.DictV(a[0].d) if isinstance(a[0], vn.DictV) else ev.shallow(a[0])
        E["builtins.vars"] = lambda ev, a, k: Attrs(ev, a[0])
        E["builtins.delattr"] = lambda ev, a, k: ev.drop(a[0], a[1])
        E["builtins.str"] = self.text
        E["builtins.repr"] = self.text
        E["builtins.type"] = self.kind
        E["builtins.getattr"] = self.get
        E["builtins.hasattr"] = self.has
        E["builtins.setattr"] = lambda ev, a, k: ev.setattr_(a[0], a[1], a[2])
        E["functools.update_wrapper"] = lambda ev, a, k: a[0]
        E["functools.partial"] = lambda ev, a, k: vn.Partial(a[0], a[1:], k)
        for n in ("sympy.sympify", "sympy.S", "sympy.parse_expr"):
            E[n] = self.sympify
        E["sympy.Symbol"] = lambda ev, a, k: Sym(a[0]) if isinstance(a[0], str) else ev.unknown("Symbol")
        E["builtins.set"] = E["builtins.frozenset"] = lambda ev, a, k: ev.mkset(a[0] if a else vn.Seq([]))
        self.opaque.update({"Fits._cached_arg_number": lambda ev, s, b, x: vn.Seq([0, 0], "list")})

    @staticmethod
    def sympify(ev, a, k):
        v = a[0]
        if isinstance(v, (Sym, int, float)) or vn.isnum(v):
            return v
        if isinstance(v, str):
            try:
                t = ast.parse(v, mode="eval").body
            except SyntaxError:
                raise vn.PyRaise("SympifyError")
            if isinstance(t, ast.Constant):
                return t.value
            return Sym(v, sorted({n.id for n in ast.walk(t) if isinstance(n, ast.Name)}))
        return ev.unknown("sympify")

    def mkset(self, v):
        c = self.concrete(v)
        return self.unknown("set") if c is None else PySet(c)

    def e_Set(self, e, env):
        return self.mkset(super().e_Set(e, env))

    def e_SetComp(self, e, env):
        return self.mkset(super().e_ListComp(e, env))

    def tostr(self, x):
        if isinstance(x, Sym):
            return x.text
        return str(x) if isinstance(x, float) else super().tostr(x)

    @staticmethod
    def kind(ev, a, k):
        v = a[0]
        if isinstance(v, vn.Obj) and v.cls is not None:
            return vn.ClassV(v.cls)
        if isinstance(v, (bool, str, int, float)):
            return vn.Ext("builtins." + type(v).__name__)
        if isinstance(v, vn.Seq) and v.kind in ("list", "tuple", "set"):
            return vn.Ext("builtins." + v.kind)
        if isinstance(v, vn.DictV):
            return vn.Ext("builtins.dict")
        if isinstance(v, Sym):
            return vn.Ext("sympy." + ("Symbol" if v.free == (v.text,) else "Expr"))
        return sym(f"type({vn.key(v)})")

    def cmp(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) and all(isinstance(x, (vn.Ext, vn.ClassV)) for x in (a, b)):
            return (vn.key(a) == vn.key(b)) == isinstance(op, (ast.Is, ast.Eq))
        return super().cmp(op, a, b)

    @staticmethod
    def text(ev, a, k):
        if a and isinstance(a[0], Sym):
            return a[0].text
        return ev.ext_plain("builtins.str", a, k)

    @staticmethod
    def isinst(ev, a, k):
        cls = a[1].items if isinstance(a[1], vn.Seq) else [a[1]]
        names = [c.cls.name if isinstance(c, vn.ClassV) else vn.key(c).rsplit(".", 1)[-1].rstrip(">") for c in cls]
        if isinstance(a[0], Sym):
            return any(n in (["Basic", "Expr", "object"] + (["Symbol", "AtomicExpr", "Atom"] if a[0].free == (a[0].text,) else [])) for n in names)
        if isinstance(a[0], vn.Obj) and a[0].cls is not None:
            return any(c.name in names for c in ev.P.mro(a[0].cls))
        if isinstance(a[0], vn.DictV):
            return any(n in ("dict", "Mapping", "MutableMapping") for n in names)
        if isinstance(a[0], (vn.FuncV, vn.Partial, Fn)):
            return any(n in ("Callable", "FunctionType") for n in names)
        if isinstance(a[0], Thing) and not isinstance(a[0], Frame):
            return any(n in getattr(a[0], "isa", ()) for n in names)
        return Proc.isinst(ev, a, k)

    # ---- containers
    def deep(self, v, memo=None):
        memo = {} if memo is None else memo
        if id(v) in memo:
            return memo[id(v)]
        if isinstance(v, vn.Seq):
            r = memo[id(v)] = vn.Seq([], v.kind)
            r.items = [self.deep(x, memo) for x in v.items]
            return r
        if isinstance(v, vn.DictV):
            r = memo[id(v)] = vn.DictV({})
            r.d = {k: self.deep(x, memo) for k, x in v.d.items()}
            r.default = v.default
            return r
        if isinstance(v, vn.Obj):
            r = memo[id(v)] = vn.Obj(vn.fresh(v.cls.name if v.cls else "obj"), v.cls)
            self.made_paths.add(r.path)
            for (p, n), x in list(self.heap.items()):
                if p == v.path:
                    self.heap[(r.path, n)] = self.deep(x, memo)
            return r
        return v

    def shallow(self, v):
        if isinstance(v, vn.Obj):
            r = vn.Obj(vn.fresh(v.cls.name if v.cls else "obj"), v.cls)
            self.made_paths.add(r.path)
            for (p, n), x in list(self.heap.items()):
                if p == v.path:
                    self.heap[(r.path, n)] = x
            return r
        return v

    def truth(self, v, node):
        if isinstance(v, PySet):
            return bool(v.d)
        r = super().truth(v, node)
        if len(self.unsure) > 80:
            raise TooMany("too many undecided branches: " + ", ".join(sorted(set(self.unsure))[:3]))
        return r

    # ---- attribute protocol
    def meth(self, o, name):
        return self.P.find_method(o.cls, name) if isinstance(o, vn.Obj) and o.cls is not None else None

    @staticmethod
    def has(ev, a, k):
        o, n = a[0], a[1]
        if isinstance(o, (vn.Obj, Sym)):
            try:
                r = ev.getattr(o, n, ev.env_(), ev.node)
            except vn.PyRaise as e:
                if e.kind == "AttributeError":
                    return False
                raise
            return True if isinstance(o, vn.Obj) else not isinstance(r, vn.BoundM)
        return Proc.has(ev, a, k)

    @staticmethod
    def get(ev, a, k):
        if len(a) > 2:
            h = ev.has(ev, a, k)
            if h is False:
                return a[2]
            if h is not True:
                return ev.unknown("getattr with default")
        return ev.getattr(a[0], a[1], ev.env_(), ev.node)

    def env_(self):
        return {"$heap": self.heap, "$func": self.top}

    def drop(self, o, n):
        if isinstance(o, vn.Obj):
            if (o.path, n) not in self.heap:
                raise vn.PyRaise("AttributeError")
            del self.heap[(o.path, n)]
            return None
        return self.unknown("delattr")

    def setattr_(self, o, n, v):
        if isinstance(o, vn.Obj):
            m = self.meth(o, "__setattr__")
            if m is not None:
                self.call_func(vn.FuncV(m, o), [n, v], {}, None, self.heap)
            else:
                self.rawset(o, n, v, self.env_())
            return None
        return Proc.put(self, [o, n, v], {})

    def rawset(self, o, n, v, env):
        h = env["$heap"]
        if n == "__dict__":
            if not isinstance(v, (vn.DictV, Attrs)):
                raise vn.Undecided("assignment to __dict__")
            new = dict(v.d) if isinstance(v, vn.DictV) else {x: h[(v.obj.path, x)] for x in v.names()}
            for k in [k for k in h if k[0] == o.path]:
                del h[k]
            for k, x in new.items():
                h[(o.path, k)] = x
            return
        s = self.P.find_setter(o.cls, n) if o.cls else None
        if s is not None:
            self.call_func(vn.FuncV(s, o), [v], {}, None, h)
        elif o.cls is not None and self.P.find_prop(o.cls, n) is not None:
            raise vn.PyRaise("AttributeError")
        else:
            h[(o.path, n)] = v

    def rawget(self, o, n, env):
        if n == "__dict__":
            return Attrs(self, o)
        if n == "__class__":
            return vn.ClassV(o.cls)
        if o.cls is not None and (o.path, n) not in env["$heap"]:
            for c in self.P.mro(o.cls):
                if f"{c.name}.{n}" in c.module.nested:
                    return vn.ClassV(c.module.nested[f"{c.name}.{n}"])
        if o.path in self.made_paths and (o.path, n) not in env["$heap"] and not (
                self.P.find_prop(o.cls, n) or self.P.find_method(o.cls, n) or self.P.find_attr(o.cls, n)):
            raise vn.PyRaise("AttributeError")
        if o.path in self.made_paths and (o.path, n) not in env["$heap"] and not self.P.find_prop(o.cls, n) and not self.P.find_method(o.cls, n):
            at = self.P.find_attr(o.cls, n)
            from rtsa.model import Func
            fx = Func(ast.parse("def _g(): pass").body[0], at[1].module)
            return self.ev(at[0], {"$heap": {}, "$func": fx})
        return super().getattr(o, n, env, self.node)

    def getattr(self, o, name, env, node=None):
        if isinstance(o, vn.ClassV) and name in ("__name__", "__qualname__"):
            return o.cls.name
        if isinstance(o, vn.Super) and name in RAW:
            m = self.P.mro(o.obj.cls)
            i = next((j for j, k in enumerate(m) if k.node is o.cls.node), 0)
            if not any(name in k.methods for k in m[i + 1:]):
                return Raw(RAW[name], o.obj)
        if isinstance(o, vn.Ext) and o.dotted == "builtins.object" and name in RAW:
            return Raw(RAW[name])
        if isinstance(o, vn.Obj) and o.cls is not None:
            self.heap = env["$heap"]
            m = self.meth(o, "__getattribute__")
            if m is not None:
                return self.call_func(vn.FuncV(m, o), [name], {}, node, env["$heap"])
            return self.rawget(o, name, env)
        return super().getattr(o, name, env, node)

    def assign(self, t, v, env):
        if isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            if isinstance(o, vn.Obj):
                self.heap = env["$heap"]
                n = self.mangle(t.attr, env)
                m = self.meth(o, "__setattr__")
                if m is not None:
                    self.call_func(vn.FuncV(m, o), [n, v], {}, t, env["$heap"])
                else:
                    self.rawset(o, n, v, env)
                return
        if isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            m = self.meth(o, "__setitem__")
            if m is not None:
                self.call_func(vn.FuncV(m, o), [self.ev(t.slice, env), v], {}, t, env["$heap"])
                return
            if isinstance(o, vn.DictV):
                k = self.ev(t.slice, env)
                if isinstance(k, Sym):
                    o.d[k.key()] = v
                    return
        super().assign(t, v, env)

    def index(self, o, i, node=None):
        m = self.meth(o, "__getitem__")
        if m is not None:
            return self.call_func(vn.FuncV(m, o), [i], {}, node, self.heap)
        if isinstance(o, vn.Seq) and type(i) is int and not any(isinstance(x, vn.Star) for x in o.items) and not -len(o.items) <= i < len(o.items):
            raise vn.PyRaise("IndexError")
        return super().index(o, i, node)

    def call_func(self, fv, args, kw, node, heap):
        r = super().call_func(fv, args, kw, node, heap)
        self.heap = heap
        return r

    def ev(self, e, env):
        self.heap = env["$heap"]
        r = super().ev(e, env)
        self.heap = env["$heap"]
        return r

    def concrete(self, it):
        m = self.meth(it, "__iter__")
        if m is not None:
            return self.concrete(self.call_func(vn.FuncV(m, it), [], {}, None, self.heap))
        return super().concrete(it)

    def apply(self, f, args, kw, node, env):
        self.heap = env["$heap"]
        if isinstance(f, vn.ClassV) and f.cls.name not in self.atomic:
            o = vn.Obj(vn.fresh(f.cls.name), f.cls)
            self.made_paths.add(o.path)
            init = self.P.find_method(f.cls, "__init__")
            if init is not None:
                r = self.call_func(vn.FuncV(init, o, f.env), args, kw, node, env["$heap"])
                if isinstance(r, vn.Unknown):
                    return r
            elif args or kw:
                raise vn.PyRaise("TypeError")
            return o
        if isinstance(f, vn.ClassV):
            return Thing(f"{f.cls.name}()")
        return super().apply(f, args, kw, node, env)

    atomic = ("rt1_plots", "polarplot", "RTmetrics")

    def wrap(self, r, env):
        if isinstance(r, tuple) and r[0] == "global" and r[2] in ("_init_lambda_backend", "_clash", "_RT1_version"):
            return Thing(r[2])
        return super().wrap(r, env)


# --------------------------------------------------------------- comparison
def canon(heap, v, skip=(), seen=None):
    """structure of a value: containers, objects and their attributes"""
    seen = seen or ()
    if isinstance(v, vn.Obj):
        if v.path in seen:
            return ("cycle",)
        at = {n: x for (p, n), x in heap.items() if p == v.path and n not in skip}
        return ("obj", v.cls.qual if v.cls else v.path, tuple((n, canon(heap, at[n], (), seen + (v.path,))) for n in sorted(at)))
    if isinstance(v, vn.Seq):
        return (v.kind, tuple(canon(heap, x, (), seen) for x in v.items))
    if isinstance(v, vn.DictV):
        return ("dict", tuple((k, canon(heap, x, (), seen)) for k, x in v.d.items()))
    if isinstance(v, PySet):
        return ("set",) + tuple(sorted(v.d))
    if isinstance(v, Attrs):
        return ("dict-view", v.obj.path)
    if isinstance(v, (vn.Unknown, vn.Ite, vn.Cond)):
        return ("?", vn.key(v))
    return (type(v).__name__ if isinstance(v, (bool, str)) else "", vn.key(v))


def unsure(c):
    return isinstance(c, tuple) and (c[:1] == ("?",) or any(unsure(x) for x in c))


def eq(a, b):
    return None if unsure(a) or unsure(b) else a == b


def holds(heap, v, out=None):
    """ids of the mutable containers reachable from a value"""
    out = {} if out is None else out
    if isinstance(v, vn.Obj):
        if ("obj", v.path) not in out:
            out[("obj", v.path)] = v
            for (p, n), x in heap.items():
                if p == v.path:
                    holds(heap, x, out)
    elif isinstance(v, (vn.Seq, vn.DictV)):
        if id(v) not in out:
            if isinstance(v, vn.DictV) or v.kind in ("list", "set", "ndarray"):
                out[id(v)] = v
            for x in v.d.values() if isinstance(v, vn.DictV) else v.items:
                holds(heap, x, out)
    return out


def show(c, n=90):
    return str(c)[:n]


def attrs(heap, o):
    return {n: v for (p, n), v in heap.items() if p == o.path}


# ------------------------------------------------------------ P11: reinit
def L(*x):
    return vn.Seq(list(x), "list")


def T(*x):
    return vn.Seq(list(x), "tuple")


def definition(s=""):
    """arguments of Fits; s distinguishes the values of different definitions"""
    v = lambda n: sym(n + s)
    D = vn.DictV
    return {
        "sig0": v("sig0"), "dB": v("dB"), "dataset": Frame("data" + s),
        "defdict": D({
            "tau" + s: L(True, v("tau0"), "manual" + s, T(L(v("min")), L(v("max"))), v("interp")),
            "w" + s: L(False, L(v("x1"), v("x2"))),
            "N": D({"fitQ": True, "val": v("N0"), "minval": v("Nmin"), "maxval": v("Nmax")}),
        }),
        "set_V_SRF": D({"V_props": D({"V_name": "Rayleigh" + s, "tau": "tau" + s}), "SRF_props": D({"SRF_name": "LinCombSRF", "SRFchoices": L(L(v("frac"), D({"SRF_name": "Isotropic" + s})))})}),
        "lsq_kwargs": D({"ftol": v("ftol"), "x_scale": L(v("sc"))}),
        "int_Q": v("int_Q"), "lambda_backend": "backend" + s, "verbose": v("verbose"), "ID": "ID" + s,
    }


def new(ev, cls, args):
    env = ev.env_()
    o = ev.apply(vn.ClassV(ev.P.cls(cls)), [], dict(args), None, env)
    ev.heap = env["$heap"]
    return o


def call(ev, o, name, args=(), kw=None):
    f = ev.P.find_method(o.cls, name)
    if f is None:
        raise AnalysisBroken(f"{o.cls.name}.{name} is gone")
    return ev.call_func(vn.FuncV(f, None if f.is_static else o), list(args), dict(kw or {}), None, ev.heap)


SHARED = ("dataset",)
OWN = ("defdict", "set_V_SRF", "lsq_kwargs")
NOCMP = ("plot",)


def compare(rep, tag, ev, a, b, where, skip=NOCMP):
    ca, cb = attrs(ev.heap, a), attrs(ev.heap, b)
    for n in sorted((set(ca) | set(cb)) - set(skip)):
        if n not in ca or n not in cb:
            rep.check(False, f"{tag}:{n}", f"attribute {n} only exists on the {'re-created' if n in ca else 'expected'} fit", where)
            continue
        x, y = canon(ev.heap, ca[n]), canon(ev.heap, cb[n])
        rep.check(eq(x, y), f"{tag}:{n}", f"re-created {show(x)} expected {show(y)}" if x != y else "equal", where)


def guard(rep, tag, where, f):
    try:
        return f()
    except vn.PyRaise as e:
        rep.check(False, tag, f"raises {e.kind}", where)
    except TooMany as e:
        rep.check(None, tag, str(e), where)
    return None


def fits_init(P):
    f = P.find_method(P.cls("Fits"), "__init__")
    if f is None:
        raise AnalysisBroken("Fits.__init__ is gone")
    return f


def p_reinit(P, rep):
    cls = P.cls("Fits")
    f = P.find_method(cls, "reinit_object")
    if f is None:
        raise AnalysisBroken("Fits.reinit_object is gone")
    where = f"{f.file}:{f.lineno} {f.qual}"
    pars = [p for p in fits_init(P).params()[1:] if p != "_fnevals_input"]
    missing = set(pars) - set(definition())
    rep.check(None if missing else True, "parameters", f"parameters of Fits without a value in the model: {sorted(missing)}", where)
    base = definition()

    def scene(tag, ov, alter=None, kw=None, fn=None, aux=False, want=None):
        def go():
            ev = Dunder(P)
            ev.top = fits_init(P)
            fit = new(ev, "Fits", {**ev.deep(vn.DictV(base)).d, **({"_fnevals_input": fn} if fn else {})})
            A = Frame("aux data")
            if aux:
                ev.setattr_(fit, "aux_data", A)
            ev.setattr_(fit, "res_dict", vn.DictV({"tau": L(sym("r1"))}))
            exp = ev.deep(vn.DictV({**base, **(ov or {})})).d
            if alter:
                alter(ev, fit, exp)
            before = canon(ev.heap, fit)
            fresh_ = ev.deep(vn.DictV(ov or {})).d
            got = call(ev, fit, "reinit_object", (), {**(kw or {}), **fresh_})
            if not isinstance(got, vn.Obj):
                rep.check(None, tag, f"no Fits object is returned: {show(vn.key(got))}", where)
                return
            ref = new(ev, "Fits", exp)
            w = want(fn, A) if want else {}
            for n, v in w.items():
                ev.heap[(ref.path, n)] = v
            compare(rep, tag, ev, got, ref, where)
            rep.check(got.path != fit.path, f"{tag}:object", "a new object is returned", where)
            rep.check(eq(before, canon(ev.heap, fit)), f"{tag}:parent", "the parent is not changed", where)
            for n in OWN:
                mine = holds(ev.heap, ev.getattr(got, n, ev.env_()))
                for who, o in (("parent", fit),):
                    both = set(mine) & set(holds(ev.heap, ev.getattr(o, n, ev.env_())))
                    rep.check(not both, f"{tag}:{n}:independent", f"{len(both)} containers shared with the {who}", where)
                if n in (ov or {}):
                    both = set(mine) & set(holds(ev.heap, fresh_[n]))
                    rep.check(not both, f"{tag}:{n}:independent of argument", f"{len(both)} containers shared with the passed argument", where)
            rep.analysed |= ev.visited
            if ev.unsure:
                rep.undecided(tag, f"left open {ev.unsure[:3]}", where)

        guard(rep, tag, where, go)

    scene("same definition", {})
    other = definition("_2")
    for p in pars:
        if p in other:
            scene(f"override {p}", {p: other[p]})
    scene("override all", {p: other[p] for p in pars if p in other})
    for p in ("defdict", "set_V_SRF", "lsq_kwargs"):
        scene(f"override {p} with None", {p: None})

    # the definition at the time of the call
    def later(n, v):
        def g(ev, fit, exp):
            ev.setattr_(fit, n, ev.deep(v))
            exp[n] = ev.deep(v)
        return g

    for p in pars:
        if p in other:
            scene(f"changed {p}", {}, later(p, other[p]))

    def defd(ev, fit, exp):
        d = ev.getattr(fit, "defdict", ev.env_())
        call(ev, d, "add_variable", ["extra"], dict(fitQ=False, val=sym("ev"), freq="2D", minval=sym("lo"), maxval=sym("hi"), interpQ=True))
        exp["defdict"].d["extra"] = L(False, sym("ev"), "2D", T(L(sym("lo")), L(sym("hi"))), True)
        v = ev.index(d, "tau")
        for i, (n, x) in enumerate((("val", sym("c0")), ("freq", "3D"), ("minval", sym("c1")), ("maxval", sym("c2")), ("interpQ", sym("c3")), ("fitQ", False))):
            ev.setattr_(v, n, x)
        exp["defdict"].d["tau"] = L(False, sym("c0"), "3D", T(L(sym("c1")), L(sym("c2"))), sym("c3"))

    scene("changed variables", {}, defd)

    def lsq(ev, fit, exp):
        ev.getattr(fit, "lsq_kwargs", ev.env_()).d["loss"] = "huber"
        exp["lsq_kwargs"].d["loss"] = "huber"

    scene("changed options", {}, lsq)

    FN = Fn("fnevals", sym("fn()"))
    scene("fnevals not shared", {}, fn=FN)
    scene("fnevals shared", {}, kw={"share_fnevals": True}, fn=FN, want=lambda fn, A: {"_fnevals_input": fn})
    scene("fnevals shared, none there", {}, kw={"share_fnevals": True})
    scene("aux_data shared", {}, aux=True, want=lambda fn, A: {"aux_data": A})
    scene("aux_data not shared", {}, kw={"share_auxdata": False}, aux=True)
    scene("aux_data not there", {}, kw={"share_auxdata": True})
    if "dataset" in other:
        scene("other dataset, aux_data not shared", {"dataset": other["dataset"], "ID": "new_ID"}, kw={"share_auxdata": False}, aux=True)


# ------------------------------------------------------- P11: definition containers
NAMES = ("fitQ", "val", "freq", "minval", "maxval", "interpQ")


def as_list(v):
    return L(v["fitQ"], v["val"], v["freq"], T(L(v["minval"]), L(v["maxval"])), v["interpQ"])


def loose(c):
    """structure without the difference between lists and tuples"""
    if isinstance(c, tuple) and c and c[0] in ("list", "tuple"):
        return ("seq",) + tuple(loose(x) for x in c[1:])
    return tuple(loose(x) for x in c) if isinstance(c, tuple) else c


def p_defdict(P, rep):
    cls = P.cls("_RT1_defdict")
    f = P.find_method(cls, "from_dict")
    g = P.find_method(cls, "to_dict")
    if f is None or g is None:
        raise AnalysisBroken("_RT1_defdict.from_dict / to_dict is gone")
    where = f"{f.file}:{f.lineno} {f.qual}"
    spec = {n: {x: sym(f"{n}_{x}") for x in NAMES} for n in ("p", "q", "a_long_name")}
    spec["q"]["val"] = L(sym("q1"), sym("q2"))
    spec["p"]["freq"], spec["q"]["freq"], spec["p"]["fitQ"], spec["q"]["fitQ"], spec["q"]["interpQ"] = "manual", None, True, False, False

    def fresh_():
        ev = Dunder(P)
        ev.top = f
        return ev

    def build(ev, d):
        return ev.call_func(vn.FuncV(f), [vn.DictV(d)], {}, None, ev.heap)

    def full(ev, kind):
        return {n: as_list(v) if kind == "list" else vn.DictV(dict(v)) for n, v in ((n, ev.deep(vn.DictV(v)).d) for n, v in spec.items())}

    def cmp_(ev, tag, d, kind, want=None):
        r = call(ev, d, "to_dict", [] if kind == "list" else [kind])
        want = vn.DictV(want or full(ev, kind))
        a, b = loose(canon(ev.heap, r)), loose(canon(ev.heap, want))
        rep.check(eq(a, b), tag, f"{show(a, 300)} expected {show(b, 300)}" if a != b else "equal", where)
        return r

    def go():
        for src in ("list", "dict"):
            ev = fresh_()
            given = full(ev, src)
            d = build(ev, given)
            for dst in ("list", "dict"):
                r = cmp_(ev, f"defdict:{src}->{dst}", d, dst)
                if isinstance(r, vn.DictV):
                    again = build(ev, r.d)
                    compare(rep, f"defdict:{src}->{dst}->defdict", ev, again, d, where, skip=())
            both = set(holds(ev.heap, d)) & {i for v in given.values() for i in holds(ev.heap, v)}
            rep.check(not both, f"defdict:{src}:copies", f"{len(both)} containers shared with the argument", where)
            names = list(spec)
            rep.check(ev.concrete(d) == names, f"defdict:{src}:order", f"{ev.concrete(d)}", where)
            rep.check(ev.concrete(call(ev, d, "keys")) == names, f"defdict:{src}:keys", f"{ev.concrete(call(ev, d, 'keys'))}", where)
            it = call(ev, d, "items")
            a, b = loose(canon(ev.heap, it)), loose(canon(ev.heap, L(*[T(n, x) for n, x in full(ev, "list").items()])))
            rep.check(eq(a[1:], b[1:]), f"defdict:{src}:items", f"{show(a)} expected {show(b)}", where)
            for n, v in spec.items():
                o = ev.index(d, n)
                for x in NAMES:
                    rep.check(eq(canon(ev.heap, ev.getattr(o, x, ev.env_())), canon(ev.heap, v[x])), f"defdict:{src}:{n}.{x}", f"{vn.key(ev.getattr(o, x, ev.env_()))}", where)
                    rep.check(eq(canon(ev.heap, ev.index(o, x)), canon(ev.heap, v[x])), f"defdict:{src}:{n}[{x}]", f"{vn.key(ev.index(o, x))}", where)
                for i, x in enumerate(as_list(v).items):
                    a, b = loose(canon(ev.heap, ev.index(o, i))), loose(canon(ev.heap, x))
                    rep.check(eq(a, b), f"defdict:{src}:{n}[{i}]", f"{show(a)}", where)
            rep.analysed |= ev.visited
        # incomplete definitions: what is given is kept, for dicts the rest are the documented defaults
        ev = fresh_()
        d = build(ev, {"s1": L(False, sym("c")), "s2": L(True, sym("c"), "2D"), "s3": vn.DictV({"val": sym("c"), "freq": "3D"})})
        ref = fresh_()
        e = new(ref, "_RT1_defdict", {})
        call(ref, e, "add_variable", ["s3"], {"val": sym("c"), "freq": "3D"})
        r, r3 = call(ev, d, "to_dict", ["dict"]), call(ref, e, "to_dict", ["dict"])
        if isinstance(r, vn.DictV) and isinstance(r3, vn.DictV):
            for n, w in (("s1", {"fitQ": False, "val": sym("c")}), ("s2", {"fitQ": True, "val": sym("c"), "freq": "2D"})):
                for x, v in w.items():
                    rep.check(same(r.d[n].d.get(x), v), f"defdict:incomplete:{n}.{x}", f"{vn.key(r.d[n].d.get(x))}", where)
            rep.check(eq(canon(ev.heap, r.d["s3"]), canon(ref.heap, r3.d["s3"])), "defdict:incomplete:s3", f"{show(canon(ev.heap, r.d['s3']))}", where)
        # all ways to set a property
        for how in ("attribute", "item", "number"):
            ev = fresh_()
            d = build(ev, full(ev, "list"))
            nv = {x: sym("new_" + x) for x in NAMES}
            o = ev.index(d, "p")
            if how == "number":
                for i, v in enumerate(as_list(nv).items):
                    call(ev, o, "__setitem__", [i, v])
            else:
                for x, v in nv.items():
                    if how == "attribute":
                        ev.setattr_(o, x, v)
                    else:
                        call(ev, o, "__setitem__", [x, v])
            w = full(ev, "list")
            w["p"] = as_list(nv)
            cmp_(ev, f"defdict:set {how}", d, "list", w)
        for how in ("list", "dict"):
            ev = fresh_()
            d = build(ev, full(ev, "list"))
            w = full(ev, "list")
            if how == "dict":
                for k, sp in (("one", (True, None, True)), ("two", (False, "2D", False)), ("three", (True, "manual", True))):
                    nv = {x: sym(f"{k}_{x}") for x in NAMES}
                    nv.update(zip(("fitQ", "freq", "interpQ"), sp))
                    ev.setattr_(d, k, vn.DictV(dict(nv)))
                    w[k] = as_list(nv)
                    cmp_(ev, f"defdict:new variable {how}", d, "list", w)
            call(ev, d, "remove_variable", ["p"])
            w = {n: v for n, v in w.items() if n != "p"}
            cmp_(ev, f"defdict:remove variable {how}", d, "list", w)
            rep.analysed |= ev.visited

    guard(rep, "defdict", where, go)


# ------------------------------------------------------- P11: scattering functions
FIXED = {"ncoefs": 7, "i": 3}


def class_params(P, c):
    """names of the arguments of a scattering function"""
    out = []
    for k in P.mro(c):
        f = k.methods.get("__init__")
        if f is None:
            continue
        out += [p for p in f.params()[1:] if p not in out]
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("pop", "get") and isinstance(n.func.value, ast.Name) and f.node.args.kwarg and n.func.value.id == f.node.args.kwarg.arg and n.args and isinstance(n.args[0], ast.Constant):
                if n.args[0].value not in out:
                    out.append(n.args[0].value)
    return out


UNCOMPARED = ("polarplot", "hemreflect", "_func", "legexpansion")
IGNORED = ("omega", "tau", "NormBRDF", "bsf")


def variants(tag):
    """values of the parameters: symbols, expressions, numbers"""
    a = L(-0.5, 1.5, 2.5)
    if tag == "symbol":
        return lambda n, i: FIXED.get(n, a if n == "a" else Sym(f"{n}_s"))
    if tag == "shared symbol":
        return lambda n, i: FIXED.get(n, a if n == "a" else Sym("one"))
    if tag == "expression":
        return lambda n, i: FIXED.get(n, a if n == "a" else Sym(f"{n}_s * other + 2", (f"{n}_s", "other")))
    return lambda n, i: FIXED.get(n, a if n == "a" else 0.25 + i)


def put(v, setdict):
    return v.put(setdict) if isinstance(v, Sym) else v


def free(vals):
    out = set()
    for n, v in vals.items():
        if n not in IGNORED and isinstance(v, Sym):
            out |= set(v.free)
    return out


def p_init(P, rep):
    fits = P.cls("Fits")
    f = P.find_method(fits, "_init_V_SRF")
    if f is None:
        raise AnalysisBroken("Fits._init_V_SRF is gone")
    where = f"{f.file}:{f.lineno} {f.qual}"
    fams = {}
    for base, kind in (("Volume", "V"), ("Surface", "SRF")):
        b = P.cls(base)
        fams[kind] = [c for c in P.subclasses(b) if c.node is not b.node and "." not in c.qual.split(c.module.name + ".", 1)[-1]]

    def start():
        ev = Dunder(P)
        ev.top = f
        for n in ("LinCombV", "LinCombSRF"):
            ev.opaque[f"{n}._set_legexpansion"] = lambda ev, s, b, x: None
        return ev, vn.Obj("self", fits)

    def settings(ev, vals):
        names = sorted({x for v in vals.values() if isinstance(v, Sym) for x in v.free})
        yield "as is", {}
        if names:
            yield "values", {n: vn_num(n) for n in names}
            yield "some values", {n: vn_num(n) for n in names[::2]}
            yield "symbols", {n: Sym(n) for n in names}

    def both(tag, ev, me, ref, d, kind, setdict, want):
        """_init_V_SRF(d, setdict) gives `ref`"""
        before = canon(ev.heap, d)
        got = call(ev, me, "_init_V_SRF", [d], {"setdict": vn.DictV(setdict)} if setdict else {})
        if not isinstance(got, vn.Obj):
            rep.check(False if got is None else None, tag, f"no scattering function: {vn.key(got)[:80]}", where)
            return
        rep.check(got.cls.qual == ref.cls.qual, tag + ":class", f"{got.cls.qual} expected {ref.cls.qual}", where)
        rep.check(eq(before, canon(ev.heap, d)), tag + ":definition", "the definition is not changed", where)
        fs = ev.concrete(attrs(ev.heap, got).get("free_symbols", 0))
        compare_fn(tag, ev, got, ref)
        if fs is None:
            rep.check(None, tag + ":free symbols", "not decided", where)
        else:
            rep.check({getattr(x, "text", vn.key(x)) for x in fs} == want, tag + ":free symbols", f"{sorted(getattr(x, 'text', vn.key(x)) for x in fs)} expected {sorted(want)}", where)

    def compare_fn(tag, ev, a, b):
        ca, cb = attrs(ev.heap, a), attrs(ev.heap, b)
        for n in sorted((set(ca) | set(cb)) - set(UNCOMPARED) - {"free_symbols"}):
            if n.endswith("choices") and n in ca and n in cb:
                x, y = ev.concrete(ca[n]), ev.concrete(cb[n])
                ok = x is not None and y is not None and len(x) == len(y)
                rep.check(ok if x is not None and y is not None else None, f"{tag}:{n}", f"{len(x or ())} parts", where)
                for i, (p, q) in enumerate(zip(x or (), y or ())):
                    p, q = ev.concrete(p), ev.concrete(q)
                    rep.check(same(p[0], q[0]), f"{tag}:{n}[{i}]:fraction", f"{vn.key(p[0])} expected {vn.key(q[0])}", where)
                    if isinstance(p[1], vn.Obj) and isinstance(q[1], vn.Obj):
                        rep.check(p[1].cls.qual == q[1].cls.qual, f"{tag}:{n}[{i}]:class", f"{p[1].cls.qual} expected {q[1].cls.qual}", where)
                        compare_fn(f"{tag}:{n}[{i}]", ev, p[1], q[1])
                    else:
                        rep.check(None, f"{tag}:{n}[{i}]", "no scattering function", where)
                continue
            x, y = canon(ev.heap, ca.get(n, "<missing>")), canon(ev.heap, cb.get(n, "<missing>"))
            rep.check(eq(x, y), f"{tag}:{n}", f"{show(x)} expected {show(y)}" if x != y else "equal", where)

    def construct(ev, c, vals):
        env = ev.env_()
        o = ev.apply(vn.ClassV(c), [], {k: ev.deep(v) for k, v in vals.items()}, None, env)
        return o

    for kind, cs in fams.items():
        simple = [c for c in cs if not c.name.startswith("LinComb")]
        for c in simple:
            ps = class_params(P, c)
            for var in ("symbol", "shared symbol", "expression", "number"):
                val = variants(var)
                vals = {n: val(n, i) for i, n in enumerate(ps)}

                def go(c=c, vals=vals, var=var):
                    ev, me = start()
                    for st, sd in settings(ev, vals):
                        ref0 = construct(ev, c, vals)
                        d = ev.getattr(ref0, "init_dict", ev.env_())
                        tag = f"{kind}:{c.name}:{var}:{st}"
                        if not isinstance(d, vn.DictV):
                            rep.check(None, tag, f"init_dict is {vn.key(d)[:80]}", where)
                            continue
                        rep.check(named(d, f"{kind}_name", c.name), tag + ":name", f"{d.d.get(kind + '_name')}", where)
                        new_ = {n: put(v, sd) for n, v in vals.items()}
                        both(tag, ev, me, construct(ev, c, new_), d, kind, sd, free(new_))
                    rep.analysed |= ev.visited
                    if ev.unsure:
                        rep.undecided(f"{kind}:{c.name}:{var}", f"left open {ev.unsure[:3]}", where)

                guard(rep, f"{kind}:{c.name}:{var}", where, go)
        for c in [c for c in cs if c.name.startswith("LinComb")]:
            attr = f"{kind}choices"
            for var in ("symbol", "expression", "number"):
                def go(c=c, var=var):
                    ev, me = start()
                    vs = variants(var)

                    def parts(sd):
                        out, fr = [], set()
                        for j, k in enumerate(simple):
                            fx = put(vs(f"frac{j}", j), sd)
                            pv = {n: put(vs(f"{n}{j}" if n not in FIXED and n != "a" else n, i), sd) for i, n in enumerate(class_params(P, k))}
                            out.append(L(fx, construct(ev, k, pv)))
                            fr |= free(pv) | free({"frac": fx})
                        return L(*out), fr

                    def comb(sd):
                        ch, fr = parts(sd)
                        own = {n: put(vs(n, i), sd) for i, n in enumerate(class_params(P, c)) if n != attr}
                        env = ev.env_()
                        return ev.apply(vn.ClassV(c), [], {attr: ch, **own}, None, env), fr | free(own)

                    o, fr = comb({})
                    names = sorted(fr)
                    for st, sd in (("as is", {}), ("values", {n: vn_num(n) for n in names}), ("some values", {n: vn_num(n) for n in names[::2]})):
                        if st != "as is" and not names:
                            continue
                        d = ev.getattr(o, "init_dict", ev.env_())
                        tag = f"{kind}:{c.name}:{var}:{st}"
                        if not isinstance(d, vn.DictV):
                            rep.check(None, tag, f"init_dict is {vn.key(d)[:80]}", where)
                            continue
                        rep.check(named(d, f"{kind}_name", c.name), tag + ":name", f"{vn.key(d.d.get(kind + '_name'))[:60]}", where)
                        ref, want = comb(sd)
                        both(tag, ev, me, ref, d, kind, sd, want)
                    rep.analysed |= ev.visited
                    if ev.unsure:
                        rep.undecided(f"{kind}:{c.name}:{var}", f"left open {ev.unsure[:3]}", where)

                guard(rep, f"{kind}:{c.name}:{var}", where, go)


def named(d, k, n):
    v = d.d.get(k)
    return v == n if v is None or isinstance(v, str) else None


def vn_num(n):
    return 3 + int.from_bytes(n.encode()[-6:], "big") / 1024


def p_recreate(P, tier):
    rep = Report("P11", tier, "abstract evaluation of Fits.__init__ / reinit_object / the definition containers over a heap model with the attribute- and item-protocols of the classes; the attributes of the re-created object are compared with those of an object initialised with the same arguments")
    p_reinit(P, rep)
    p_defdict(P, rep)
    p_init(P, rep)
    return rep


CHECKS = {"P11": p_recreate}
