"""P10 cached intermediate results never outlive what they were computed from"""
import ast

from rtsa import deps, vn
from rtsa.alg import sym
from rtsa.model import AnalysisBroken
from rtsa.report import Report

EXEMPT = {"lsq_kwargs", "verbose", "ID"}     # never enter a cached value (documented: only control the optimiser / messages)


class Info(vn.ModelObj):
    def __init__(self, size):
        self.size = size

    def key(self):
        return f"cache_info({self.size})"

    def attr(self, ev, name, env):
        if name == "currsize":
            return self.size
        return sym("info:" + name)

    def item(self, ev, idx):
        return self.size if idx in (3, -1) else sym(f"info:{idx}")


class Member(vn.ModelObj):
    """a memoised member of a class (the function object that carries the cache)"""

    def __init__(self, ev, name, prop, wrapped):
        self.ev, self.name, self.prop, self.wrapped = ev, name, prop, wrapped

    def key(self):
        return f"<member {self.name}{'' if self.wrapped else '.fget'}>"

    def attr(self, ev, name, env):
        if name == "fget":
            if self.prop and self.wrapped:
                return Member(ev, self.name, True, False)
            raise vn.PyRaise("AttributeError")
        if name in ("cache_clear", "cache_info"):
            if self.prop and self.wrapped:
                raise vn.PyRaise("AttributeError")
            return vn.BoundM(self, name)
        return NotImplemented

    def method(self, ev, name, args, kw, env):
        if name == "cache_clear":
            env["$heap"][("$cleared", self.name)] = True
            return None
        if name == "cache_info":
            return Info(ev.sizes.get(self.name, 0))
        return NotImplemented


class Eval(vn.Evaluator):
    def __init__(self, P, cls, sizes, **kw):
        super().__init__(P, **kw)
        self.target, self.sizes, self.exact_try = cls, sizes, True
        self.ext.setdefault("builtins.isinstance", self.isinst)
        self.ext.setdefault("builtins.type", lambda ev, a, k: vn.ClassV(a[0].cls) if isinstance(a[0], vn.Obj) else sym("type"))
        self.ext.setdefault("builtins.vars", lambda ev, a, k: sym("vars"))

    @staticmethod
    def isinst(ev, a, k):
        names = {vn.key(x) for x in (a[1].items if isinstance(a[1], vn.Seq) else [a[1]])}
        if isinstance(a[0], Member):
            if any("property" in n for n in names):
                return a[0].prop and a[0].wrapped
            return False
        if isinstance(a[0], str):
            return any(n.endswith("str") for n in names)
        return vn.Cond(f"isinstance({vn.key(a[0])},{','.join(sorted(names))})")

    def cached(self, cls, name):
        for k in self.P.mro(cls):
            if name in k.props:
                return (True, k.props[name]) if k.props[name].is_cached else None
            if name in k.methods:
                return (False, k.methods[name]) if k.methods[name].is_cached else None
        return None

    def getattr(self, o, name, env, node=None):
        if name == "__class__" and isinstance(o, vn.Obj):
            return vn.ClassV(o.cls)
        if name == "__dict__" and isinstance(o, vn.ClassV):
            return ClsDict(o.cls)
        if isinstance(o, (vn.ClassV, vn.Obj)) and o.cls is not None and any(k.node is self.target.node for k in self.P.mro(o.cls)):
            c = self.cached(o.cls, name)
            if c is not None and (isinstance(o, vn.ClassV) or not c[0]):
                return Member(self, name, c[0], True)
            if c is not None:
                return sym(f"self.{name}")
            if isinstance(o, vn.ClassV) and self.P.find_prop(o.cls, name) is not None:
                return Member(self, name, True, True)
        return super().getattr(o, name, env, node)


class ClsDict(vn.ModelObj):
    def __init__(self, cls):
        self.cls = cls

    def key(self):
        return f"vars({self.cls.qual})"

    def item(self, ev, idx):
        c = ev.cached(self.cls, idx) if isinstance(idx, str) else None
        return Member(ev, idx, c[0], True) if c else sym(f"cls.{idx}")


def setter_stores(P, cls, attr):
    s = P.find_setter(cls, attr)
    out = {attr}
    if s is not None:
        out |= deps.stores(s)
    return out


def cached_of(P, cls):
    out = {}
    for k in P.mro(cls):
        for n, f in list(k.props.items()) + list(k.methods.items()):
            if f.is_cached:
                out.setdefault(n, f)
    return out


def cleared(heap, name):
    return heap.get(("$cleared", name)) is True


def p_cache(P, tier):
    rep = Report("P10", tier, "Read-set closure of every memoised member (attributes reachable through properties, methods, getattr and helpers) against "
                 "the clearing routine, interpreted from the current source for every (attribute assigned, member populated) scenario; "
                 "writes that bypass the setters must clear as well.")
    fits(P, rep)
    rt1(P, rep)
    bypass(P, rep)
    memo(P, rep)
    fresh_fit(P, rep)
    results(P, rep)
    rep.assume("objects held in the defining attributes are replaced, not modified in place, between evaluations")
    rep.minimum = 80
    return rep


def closure(P, cls):
    R = deps.Reads(P, cls)
    mem = cached_of(P, cls)
    out = {}
    for n, f in mem.items():
        R.memo = {}
        raw, m = R.of(f)
        out[n] = (f, raw, m & set(mem))
    return out, R


def fits(P, rep):
    F = P.cls("rtfits.Fits")
    cl, R = closure(P, F)
    rep.analysed |= R.functions
    init = P.find_method(F, "__init__")
    attrs = [a for a in init.params()[1:] if a not in EXEMPT]
    hook = P.find_method(F, "__setattr__")
    npairs = 0
    for A in attrs:
        W = setter_stores(P, F, A)
        for n, (f, raw, mem) in sorted(cl.items()):
            if not {r[0] for r in raw} & W:
                continue
            npairs += 1
            sizes = {x: 1 for x in mem | {n}}
            heap = assign(P, F, A, sizes, rep)
            key = f"assign:{A}:{n}"
            if isinstance(heap, str):
                rep.undecided(key, heap, f.qual)
                continue
            rep.check(cleared(heap, n), key, f"assigning {A} must discard the cached {n} (computed from {sorted(W & {r[0] for r in raw})})",
                      f"{f.file}:{(hook or f).qual}")
    rep.check(npairs >= 40, "closure:size", f"{npairs} (attribute, cached member) dependencies found", "rtfits.Fits")
    # clearing on demand covers every cached member that depends on the state of the fit
    cc = P.find_method(F, "_clear_cache")
    if cc is None:
        raise AnalysisBroken("Fits._clear_cache vanished")
    for n, (f, raw, mem) in sorted(cl.items()):
        if not raw:
            continue
        ev = Eval(P, F, {x: 1 for x in mem | {n}})
        try:
            r, heap = ev.run(cc, selfv=vn.Obj("self", F))
        except vn.PyRaise as e:
            rep.bad(f"clear:{n}", f"_clear_cache raises {e.kind} if {n} is populated", cc.qual)
            continue
        rep.analysed |= ev.visited
        rep.check(cleared(heap, n), f"clear:{n}", f"_clear_cache discards the cached {n}", f"{cc.file}:{cc.qual}")


def assign(P, F, A, sizes, rep):
    ev = Eval(P, F, sizes)
    env = {"$heap": {}, "$func": P.find_method(F, "__init__")}
    hook = P.find_method(F, "__setattr__")
    o = vn.Obj("self", F)
    ev.ext["builtins.object.__setattr__"] = lambda e, a, k: store(e, P, F, o, a[-2], a[-1], env)
    ev.ext["builtins._noop"] = lambda e, a, k: store(e, P, F, o, a[0], a[1], env) if len(a) == 2 and isinstance(a[0], str) else None
    try:
        if hook is not None:
            r = ev.call_func(vn.FuncV(hook, o), [A, sym("new_value")], {}, None, env["$heap"])
            if isinstance(r, vn.Unknown):
                return f"__setattr__ not interpretable: {r.why}"
        else:
            store(ev, P, F, o, A, sym("new_value"), env)
    except vn.PyRaise as e:
        return {}
    rep.analysed |= ev.visited
    return env["$heap"]


def store(ev, P, cls, o, name, v, env):
    s = P.find_setter(cls, name)
    heap = getattr(ev, "heap", env["$heap"])
    if s is not None:
        ev.call_func(vn.FuncV(s, o), [v], {}, None, heap)
    else:
        heap[(o.path, name)] = v
    return None


def rt1(P, rep):
    C = P.cls("rt1.RT1")
    cl, R = closure(P, C)
    rep.analysed |= R.functions
    for A in ("t_0", "t_ex", "p_0", "p_ex"):
        s = P.find_setter(C, A)
        if s is None:
            rep.undecided(f"angle:{A}", f"setter of RT1.{A} not found", "rt1.RT1")
            continue
        W = deps.stores(s) | {f"_{C.name}{x}" for x in deps.stores(s)}
        for geom in ("vvvv", "mono"):
            for n, (f, raw, mem) in sorted(cl.items()):
                if not {r[0] for r in raw} & W:
                    continue
                ev = Eval(P, C, {x: 1 for x in mem | {n}}, attrs={"self.geometry": geom})
                r, heap = None, {}
                r = ev.call_func(vn.FuncV(s, vn.Obj("self", C)), [sym("new_angle")], {}, None, heap)
                rep.analysed |= ev.visited
                changed = any((p, x) in heap for p, x in heap if p == "self" and (x in W or x.lstrip("_") in {w.lstrip("_") for w in W}))
                if not changed:
                    rep.ok(f"angle:{A}:{geom}:{n}", "the assignment is ignored in this geometry")
                    continue
                rep.check(cleared(heap, n), f"angle:{A}:{geom}:{n}", f"assigning {A} must discard the cached {n}", f"{s.file}:{s.qual}")
    cc = P.find_method(C, "_clear_cache")
    if cc is None:
        raise AnalysisBroken("RT1._clear_cache vanished")
    for n, (f, raw, mem) in sorted(cl.items()):
        ev = Eval(P, C, {x: 1 for x in mem | {n}})
        try:
            r, heap = ev.run(cc, selfv=vn.Obj("self", C))
        except vn.PyRaise as e:
            rep.bad(f"rt1-clear:{n}", f"RT1._clear_cache raises {e.kind}", cc.qual)
            continue
        rep.analysed |= ev.visited
        rep.check(cleared(heap, n), f"rt1-clear:{n}", f"RT1._clear_cache discards the cached {n}", f"{cc.file}:{cc.qual}")
        # quantities that are re-assigned for each evaluation must not enter a cached value
        per_eval = {("V", "tau"), ("V", "omega"), ("SRF", "NormBRDF"), ("bsf",), ("I0",)} & raw
        vals = values_read(f)
        rep.check(not per_eval and not vals, f"rt1-per-evaluation:{n}",
                  f"a cached member must not depend on per-evaluation values {sorted(per_eval) or vals or ''}", f"{f.file}:{f.qual}")


def values_read(f):
    out = []
    for n in ast.walk(f.node):
        if isinstance(n, ast.Attribute) and n.attr == "param_dict" and isinstance(n.ctx, ast.Load):
            p = next((m for m in ast.walk(f.node) if isinstance(m, ast.Attribute) and m.value is n), None)
            if p is not None and p.attr in ("values", "items", "get", "pop"):
                out.append(f"param_dict.{p.attr}")
            if any(isinstance(m, ast.Subscript) and m.value is n for m in ast.walk(f.node)):
                out.append("param_dict[...]")
    return out


def bypass(P, rep):
    """stores into the backing attributes of a fit outside its own setters"""
    F = P.cls("rtfits.Fits")
    backing = set()
    for A in P.find_method(F, "__init__").params()[1:]:
        backing |= setter_stores(P, F, A) - {A}
    backing -= {"_ID", "_fnevals_input"}
    setters = {f.qual for k in P.mro(F) for f in k.setters.values()}
    n = 0
    for f in P.all_functions():
        if f.cls is not None and any(k.node is F.node for k in P.mro(f.cls)) and (f.qual in setters or f.name in ("__init__", "__setstate__", "__update__")):
            continue
        selfn = f.params()[0] if f.cls is not None and f.params() and not f.is_static else None
        for node in ast.walk(f.node):
            tgt = None
            if isinstance(node, ast.Attribute) and isinstance(node.ctx, ast.Store) and node.attr in backing:
                tgt = node.value
            if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == "setattr" and len(node.args) == 3 \
                    and isinstance(node.args[1], ast.Constant) and node.args[1].value in backing:
                tgt = node.args[0]
            if tgt is None:
                continue
            if isinstance(tgt, ast.Name) and tgt.id == selfn and not (f.cls is not None and any(k.node is F.node for k in P.mro(f.cls))):
                continue        # the class' own attribute of the same name
            n += 1
            ok = any(isinstance(m, ast.Call) and isinstance(m.func, ast.Attribute) and m.func.attr == "_clear_cache" for m in ast.walk(f.node))
            rep.check(ok, f"bypass:{f.qual}", "a direct store to a backing attribute of a fit must be followed by clearing its caches",
                      f"{f.file}:{node.lineno}")
    rep.ok("bypass:scan", f"{n} direct stores outside the setters")


def memo(P, rep):
    """the evaluated coefficients are remembered outside the memoised members: same rule"""
    F = P.cls("rtfits.Fits")
    init = P.find_method(F, "__init__")
    if "_fnevals_input" not in init.params():
        rep.undecided("memo", "Fits.__init__ has no _fnevals_input", init.qual)
        return
    for A in ("set_V_SRF", "defdict"):
        heap = assign(P, F, A, {}, rep)
        if isinstance(heap, str):
            rep.undecided(f"memo:{A}", heap, init.qual)
            continue
        rep.check(heap.get(("self", "_fnevals_input"), 0) is None, f"memo:{A}",
                  f"assigning {A} must forget the coefficients evaluated for the previous {A}", f"{init.file}:Fits.{A}")


def fresh_fit(P, rep):
    from checks import fitting
    ev, f, ret, heap, call, log = fitting.run_performfit(P, False, False)
    rep.analysed |= ev.visited
    o = log["order"]
    where = f"{f.file}:{f.qual}"
    if "R" not in o:
        rep.undecided("fresh-fit", f"performfit evaluates no RT1 object (trace {o})", where)
        return
    rep.check("clear" in o[:o.index("R")], "fresh-fit:fits", f"performfit(clear_cache=True) clears the cached members before it evaluates the model (trace {o})", where)
    last = len(o) - 1 - o[::-1].index("R")
    rep.check("R.clear" in o[last:], "fresh-fit:rt1", f"performfit clears the cached geometry terms of its RT1 object (trace {o})", where)


def nested_class(P, name):
    return next((f.cls for f in P.all_functions() if f.cls is not None and f.cls.name == name), None)


def results(P, rep):
    methods = {}
    for f in P.all_functions():
        if ".RTresults." in "." + f.qual and f.cls is None or f.cls is not None and f.cls.name == "_RT1_fitresult":
            methods.setdefault(f.name, f)
    cached = {n: f for n, f in methods.items() if f.is_cached}
    if not cached:
        rep.ok("results", "no memoised result handle")
        return

    def selfattrs(f, ctx):
        s = f.params()[0] if f.params() and not f.is_static else None
        return {n.attr for n in ast.walk(f.node) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ctx)
                and isinstance(n.value, ast.Name) and n.value.id == s}

    def reach(f, seen):
        if f.qual in seen:
            return seen
        seen[f.qual] = f
        for a in selfattrs(f, ast.Load):
            if a in methods and methods[a].node is not f.node:
                reach(methods[a], seen)
        return seen
    for n, f in cached.items():
        reads = set()
        for g in reach(f, {}).values():
            rep.analysed.add(g.qual)
            reads |= selfattrs(g, ast.Load)
        for m, g in methods.items():
            w = selfattrs(g, ast.Store) & reads
            if m == "__init__" or not w:
                continue
            hit = any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "cache_clear"
                      and any(isinstance(y, ast.Attribute) and y.attr == n for y in ast.walk(x.func))
                      for h in reach(g, {}).values() for x in ast.walk(h.node))
            rep.check(hit, f"results:{n}:{m}", f"{m} replaces {sorted(w)} and must discard the cached {n}", f"{g.file}:{g.qual}")


CHECKS = {"P10": p_cache}
