"""Global value numbering with algebraic normal forms over Python ASTs.

Each expression is mapped to a canonical term (``alg.Rat`` or a small structured
value).  Branches whose condition is not decided by constant propagation are
joined with gated values (``ite``), counted loops are summarised as sums /
comprehensions, calls of repository functions are inlined, properties are
followed.  No path is enumerated for a solver and no repository code runs.
"""
import ast
import hashlib
import itertools
from fractions import Fraction as F

from . import alg
from .alg import Rat, rat, sym, Undecided
from .model import Cls, Func, Module, unparse


class Seq:
    def __init__(self, items, kind="list"):
        self.items, self.kind = list(items), kind


class SliceV:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step

    def concrete(self):
        out = []
        for x in (self.lo, self.hi, self.step):
            if isinstance(x, Rat):
                c = x.const()
                x = int(c) if c is not None and c.denominator == 1 else x
            if x is not None and (not isinstance(x, int) or isinstance(x, bool)):
                return None
            out.append(x)
        return slice(*out)


class DictV:
    default = None

    def __init__(self, d):
        self.d = dict(d)


class Obj:
    def __init__(self, path, cls):
        self.path, self.cls = path, cls


class FuncV:
    def __init__(self, func, selfv=None, env=None):
        self.func, self.selfv, self.env = func, selfv, env


class ClassV:
    def __init__(self, cls, env=None):
        self.cls, self.env = cls, env


class Super:
    def __init__(self, obj, cls):
        self.obj, self.cls = obj, cls


class ModV:
    def __init__(self, dotted):
        self.dotted = dotted


class Ext:
    """external (non repository) callable / object by dotted name"""

    def __init__(self, dotted):
        self.dotted = dotted


class Partial:
    def __init__(self, f, args, kw):
        self.f, self.args, self.kw = f, args, kw


class BoundM:
    """method `name` of a non repository value"""

    def __init__(self, val, name):
        self.val, self.name = val, name


class Range:
    def __init__(self, lo, hi):  # hi exclusive, Rats
        self.lo, self.hi = lo, hi


class Arr:
    """vector of symbolic length: element number `var` (0..count-1) is body"""

    def __init__(self, var, count, body):
        self.var, self.count, self.body = var, count, body


class Ite:
    def __init__(self, cond, a, b):
        if isinstance(cond, str) and cond.startswith("not(") and closes_at_end(cond):
            cond, a, b = cond[4:-1], b, a
        self.cond, self.a, self.b = cond, a, b


def closes_at_end(t):
    d = 0
    for i, ch in enumerate(t):
        d += ch == "("
        d -= ch == ")"
        if d == 0 and ch == ")":
            return i == len(t) - 1
    return False


def plain(v):
    """hashable constant of a fully concrete value, else None"""
    if isinstance(v, Seq):
        xs = [plain(x) for x in v.items]
        return None if any(x is None for x in xs) else ("seq",) + tuple(xs)
    if isinstance(v, (bool, int, float, str)):
        return ("c", v)
    if isinstance(v, Rat) and v.const() is not None:
        return ("c", v.const())
    return None


def dedupe(items):
    out, seen = [], set()
    for x in items:
        k = key(x)
        if k not in seen:
            seen.add(k)
            out.append(x)
    return out


class Star:
    def __init__(self, v):
        self.v = v


class Lam:
    """a compiled sympy expression"""

    def __init__(self, params, expr):
        self.params, self.expr = params, expr


class Cond:
    """undecided boolean with canonical text"""

    def __init__(self, text):
        self.text = text


class Unknown:
    def __init__(self, why):
        self.why = why


class ModelObj:
    """value with rule-defined behaviour: subclasses override the hooks they need;
    NotImplemented falls back to an uninterpreted term"""
    name = "model"

    def key(self):
        return f"<{self.name}>"

    def attr(self, ev, name, env):
        return NotImplemented

    def call(self, ev, args, kw, env):
        return NotImplemented

    def method(self, ev, name, args, kw, env):
        return NotImplemented

    def item(self, ev, idx):
        return NotImplemented

    def setattr(self, ev, name, v, env):
        return NotImplemented

    def setitem(self, ev, idx, v, env):
        return NotImplemented

    def binop(self, ev, op, other, swapped):
        return NotImplemented

    def unary(self, ev, op):
        return NotImplemented

    def iter(self, ev):
        return None

    def contains(self, ev, x):
        return None

    def compare(self, ev, op, other):
        return NotImplemented


class PyRaise(Exception):
    """an exception that a model object raises during a concrete evaluation"""

    def __init__(self, kind="Exception"):
        super().__init__(kind)
        self.kind = kind


class IterV:
    """stateful iterator over a concrete list"""

    def __init__(self, items):
        self.items, self.pos = list(items), 0

    def take(self, n=None):
        out = self.items[self.pos:] if n is None else self.items[self.pos:self.pos + n]
        self.pos += len(out)
        return out


NORET = object()
RAISED = object()
BRK = object()
CNT = object()
_uid = [0]


def fresh(prefix):
    _uid[0] += 1
    return f"${prefix}{_uid[0]}"


def key(v):
    k = _key(v)
    if len(k) > 6000:
        k = ("?<" if "?<" in k else "") + "#" + hashlib.sha1(k.encode()).hexdigest()
    return k


def _key(v):
    if isinstance(v, SliceV):
        return alg.call("slice", ["None" if x is None else key(x) for x in (v.lo, v.hi, v.step)]).key()
    if isinstance(v, Rat):
        return v.key()
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return repr(v)
    if isinstance(v, (int, float)):
        return rat(v).key()
    if isinstance(v, Seq):
        return "[" + ",".join(key(x) for x in v.items) + "]"
    if isinstance(v, DictV):
        return "{" + ",".join(f"{k!r}:{key(x)}" for k, x in sorted(v.d.items(), key=lambda t: repr(t[0]))) + "}"
    if isinstance(v, Obj):
        return v.path
    if isinstance(v, FuncV):
        return f"<fn {v.func.qual}>"
    if isinstance(v, ClassV):
        return f"<cls {v.cls.qual}>"
    if isinstance(v, (ModV, Ext)):
        return v.dotted
    if isinstance(v, Partial):
        return "partial(" + key(v.f) + "," + ",".join(map(key, v.args)) + "," + ",".join(
            f"{k}={key(x)}" for k, x in sorted(v.kw.items())) + ")"
    if isinstance(v, BoundM):
        return f"{key(v.val)}.{v.name}"
    if isinstance(v, Range):
        return f"range({v.lo.key()},{v.hi.key()})"
    if isinstance(v, Arr):
        b = v.body
        if isinstance(b, Rat):
            b = alg.subst(b, {v.var: sym("$elem")})
        return f"arr[{v.count.key()}]({key(b)})"
    if isinstance(v, Ite):
        return f"ite({v.cond};{key(v.a)};{key(v.b)})"
    if isinstance(v, Star):
        return "*" + key(v.v)
    if isinstance(v, Lam):
        return "lam([" + ",".join(key(p) for p in v.params) + "]," + key(v.expr) + ")"
    if isinstance(v, Cond):
        return f"cond<{v.text}>"
    if isinstance(v, Unknown):
        return f"?<{v.why}>"
    if isinstance(v, ModelObj):
        return v.key()
    if isinstance(v, IterV):
        return "iter[" + ",".join(key(x) for x in v.items[v.pos:]) + "]"
    return repr(v)


def isnum(v):
    return isinstance(v, (Rat, int, float)) and not isinstance(v, bool)


def asrat(v):
    if isinstance(v, Rat):
        return v
    if isnum(v):
        return rat(v)
    if isinstance(v, Ite):
        return alg.call("ite", [v.cond, asrat(v.a), asrat(v.b)])
    if isinstance(v, bool):
        return rat(int(v))
    return alg.call("val", [key(v)])


def is_unknown(v):
    k = key(v)
    return "?<" in k


# sympy / numpy names with an interpretation
ELEM = {"cos", "sin", "tan", "exp", "log", "log10", "sqrt", "abs", "sign", "arccos", "acos",
        "expi", "gamma"}
IDENT = {
    "array", "asarray", "atleast_1d", "asanyarray", "float64", "ascontiguousarray", "copy", "expand", "sympify",
    "simplify", "float", "squeeze", "vectorize",
}
BIN = {"add": "+", "subtract": "-", "multiply": "*", "divide": "/", "true_divide": "/",
       "power": "**", "float_power": "**"}
EXTMODS = ("numpy", "sympy", "scipy", "symengine", "math", "pandas")


class Evaluator:
    def __init__(self, project, opaque=None, types=None, facts=None, attrs=None, maxdepth=14,
                 ext=None):
        self.P = project
        self.opaque = opaque or {}      # qual/suffix -> name  (methods & properties)
        self.types = types or {}        # object path -> Cls
        self.facts = facts or {}        # condition text -> bool  (or callable)
        self.attrs = attrs or {}        # object path.attr -> value
        self.ext = ext or {}            # dotted ext name -> handler(ev, args, kw)
        self.maxdepth = maxdepth
        self.depth = 0
        self.instantiate = False
        self.exact_try = False
        self.gates = 0      # number of enclosing branches whose condition is not decided
        self.visited = set()            # Funcs analysed (evidence)
        self.notes = []
        self.trying = []
        self.asserts = []   # conditions that must hold to pass this point
        self.cats = {}      # normal forms of concatenated strings
        self.frames = []    # environments of the active calls (roots of the container store)

    # ------------------------------------------------------------- helpers
    def unknown(self, why, node=None):
        line = getattr(node, "lineno", "?")
        self.notes.append(f"{why} (line {line})")
        return Unknown(f"{why}@{line}")

    def fact(self, text):
        f = self.facts(text) if callable(self.facts) else self.facts.get(text)
        return f

    def is_opaque(self, func):
        q = func.qual
        for o in self.opaque:
            if q == o or q.endswith("." + o):
                return self.opaque[o]
        return None

    # ------------------------------------------------------------ functions
    def run(self, func, args=None, kw=None, selfv=None, heap=None):
        """evaluate `func` with given argument values; missing parameters get
        a symbol of the same name.  returns (value, heap)"""
        a = func.node.args
        names = func.params()
        env = {"$heap": dict(heap or {}), "$func": func}
        args = list(args or [])
        kw = dict(kw or {})
        if func.cls is not None and not func.is_static and names:
            env[names[0]] = selfv if selfv is not None else Obj("self", func.cls)
            names = names[1:]
        for n in names:
            if args:
                env[n] = args.pop(0)
            elif n in kw:
                env[n] = kw.pop(n)
            else:
                env[n] = sym(n)
        for k in a.kwonlyargs:
            env[k.arg] = kw.pop(k.arg, sym(k.arg))
        if a.kwarg:
            env[a.kwarg.arg] = kw if kw else sym(a.kwarg.arg)
            if isinstance(env[a.kwarg.arg], dict):
                env[a.kwarg.arg] = DictV(env[a.kwarg.arg])
        if a.vararg:
            env[a.vararg.arg] = Seq(args, "tuple")
        self.visited.add(func.qual)
        self.frames.append(env)
        try:
            ret, env = self.exec_body(func.node.body, env)
        finally:
            self.frames.pop()
        return ret, env["$heap"]

    def call_func(self, fv, args, kw, node, heap):
        func = fv.func
        nm = self.is_opaque(func)
        if nm is not None:
            return self.opaque_call(nm, func, fv.selfv, args, kw)
        if self.depth > self.maxdepth:
            return self.unknown(f"inlining depth at {func.qual}", node)
        env = {"$heap": heap, "$func": func}
        if fv.env is not None:
            env.update({k: v for k, v in fv.env.items() if k not in ("$heap",)})
            env["$heap"] = heap
            env["$func"] = func
        a = func.node.args
        names = func.params()
        posn = list(args)
        if func.is_classmethod:
            posn = [ClassV(func.cls)] + posn
        elif func.cls is not None and not func.is_static and fv.selfv is not None:
            posn = [fv.selfv] + posn
        if any(isinstance(x, Star) for x in posn):
            if a.vararg is None or any(isinstance(x, Star) for x in posn[: len(names)]):
                return self.unknown(f"star-call of {func.qual}", node)
        bound = {}
        for n in names:
            if posn:
                bound[n] = posn.pop(0)
        kw = dict(kw)
        starkw = kw.pop("**", None)
        for n in names + [k.arg for k in a.kwonlyargs]:
            if n in kw and n not in bound:
                bound[n] = kw.pop(n)
        dfl = func.defaults()
        for n in names + [k.arg for k in a.kwonlyargs]:
            if n not in bound:
                if n in dfl:
                    bound[n] = self.ev(dfl[n], {"$heap": heap, "$func": func, **({} if fv.env is None else {k: v for k, v in fv.env.items() if k[0] != "$"})})
                elif starkw is not None:
                    bound[n] = self.index(starkw, n)
                else:
                    return self.unknown(f"missing argument {n} of {func.qual}", node)
        env.update(bound)
        if a.vararg:
            env[a.vararg.arg] = Seq(posn, "tuple")
        if a.kwarg:
            env[a.kwarg.arg] = starkw if starkw is not None and not kw else DictV(kw)
        self.visited.add(func.qual)
        self.depth += 1
        self.frames.append(env)
        try:
            if isinstance(func.node, ast.Lambda):
                return self.ev(func.node.body, env)
            ret, env2 = self.exec_body(func.node.body, env)
        finally:
            self.depth -= 1
            self.frames.pop()
        if fv.env is not None:
            for st in func.node.body:
                for n in walk_scope(st):
                    if isinstance(n, ast.Nonlocal):
                        for x in n.names:
                            if x in env2:
                                fv.env[x] = env2[x]
        if env2["$heap"] is not heap:
            new = dict(env2["$heap"])
            heap.clear()
            heap.update(new)
        return ret

    def opaque_call(self, nm, func, selfv, args, kw):
        """uninterpreted call; arguments normalised by the callee's signature"""
        names = func.params()
        if func.cls is not None and not func.is_static:
            names = names[1:]
        bound, args = {}, list(args)
        extra = []
        for n in names:
            if args:
                bound[n] = args.pop(0)
            elif n in kw:
                bound[n] = kw[n]
            elif n in func.defaults():
                bound[n] = self.ev(func.defaults()[n], {"$heap": {}, "$func": func})
        extra = args + [f"{k}={key(v)}" for k, v in sorted(kw.items()) if k not in names]
        if callable(nm):
            return nm(self, selfv, bound, extra)
        return alg.call(
            nm, [f"{n}=" + key(bound[n]) if not isnum(bound[n]) else asrat(bound[n]) for n in names if n in bound]
            + [x if isinstance(x, str) else asrat(x) for x in extra],
        )

    # ------------------------------------------------------------ statements
    def exec_body(self, stmts, env):
        gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for st in stmts for n in walk_scope(st))
        if gen:
            env["$yield"] = Seq([], "list")
        else:
            env.pop("$yield", None)
        ret, env = self.block(stmts, env)
        if ret is NORET:
            ret = None
        if gen:
            y = env["$yield"]
            if isinstance(ret, Unknown):
                return ret, env
            return (IterV(y.items) if isinstance(y, Seq) else self.unknown("generator")), env
        return ret, env

    def e_Yield(self, e, env):
        v = self.ev(e.value, env) if e.value is not None else None
        y = env.get("$yield")
        env["$yield"] = Seq(y.items + [v], "list") if isinstance(y, Seq) else self.unknown("yield", e)
        return None

    def e_YieldFrom(self, e, env):
        c = self.concrete(self.ev(e.value, env))
        y = env.get("$yield")
        env["$yield"] = Seq(y.items + list(c), "list") if c is not None and isinstance(y, Seq) else self.unknown("yield", e)
        return None

    def block(self, stmts, env):
        """returns (ret, env); ret NORET when falling through, RAISED if the
        end is unreachable through an exception"""
        for i, st in enumerate(stmts):
            rest = stmts[i + 1:]
            if isinstance(st, ast.If):
                c = self.truth(self.ev(st.test, env), st.test)
                if c is True or c is False:
                    r, env = self.block(st.body if c else st.orelse, env)
                    if r is not NORET:
                        return r, env
                    continue
                self.gates += 1
                try:
                    s0 = self.save(env)
                    e1 = self.cp(env)
                    r1, e1 = self.block(st.body, e1)
                    s1 = self.save(e1)
                    self.restore(s0)
                    e2 = self.cp(env)
                    r2, e2 = self.block(st.orelse, e2)
                    s2 = self.save(e2)
                    if r1 is NORET and r2 is NORET:
                        env, _ = self.joinst(c, e1, s1, e2, s2)
                        continue
                    if r1 is NORET:
                        self.restore(s0)
                        self.restore(s1)
                        r1, e1 = self.block(rest, e1)
                        s1 = self.save(e1)
                    if r2 is NORET:
                        self.restore(s0)
                        self.restore(s2)
                        r2, e2 = self.block(rest, e2)
                        s2 = self.save(e2)
                    if (r1 is CNT or r1 is BRK or r2 is CNT or r2 is BRK) and not (r1 is RAISED or r2 is RAISED):
                        env, _ = self.joinst(c, e1, s1, e2, s2)
                        if {r1, r2} <= {CNT, NORET}:
                            return CNT, env
                        if r1 is BRK and r2 is BRK:
                            return BRK, env
                        return self.unknown("conditional break", st), env
                    if r1 is RAISED:
                        self.asserts.append(c.text[4:-1] if c.text.startswith("not(") else f"not({c.text})")
                        self.restore(s0)
                        self.restore(s2)
                        return r2, e2
                    if r2 is RAISED:
                        self.asserts.append(c.text)
                        self.restore(s0)
                        self.restore(s1)
                        return r1, e1
                    if r1 is NORET:
                        r1 = None
                    if r2 is NORET:
                        r2 = None
                    env, r = self.joinst(c, e1, s1, e2, s2, r1, r2)
                    return r, env
                except PyRaise as exc:
                    raise Undecided(f"{exc.kind} under a condition that is not known: {c.text[:80]}")
                finally:
                    self.gates -= 1
            if isinstance(st, (ast.With, ast.AsyncWith)):
                inl = self.inline_cm(st, env)
                if inl is not None:
                    r, env = self.block(inl, env)
                    if r is not NORET:
                        return r, env
                    continue
                leave = []
                for it in st.items:
                    v = self.ev(it.context_expr, env)
                    if isinstance(v, ModelObj) and hasattr(v, "leave"):
                        leave.append(v)
                    if it.optional_vars is not None:
                        self.assign(it.optional_vars, v, env)
                try:
                    r, env = self.block(st.body, env)
                finally:
                    for v in leave:
                        v.leave(self)
                if r is not NORET:
                    return r, env
                continue
            if isinstance(st, ast.Try):
                s0 = self.save(env)
                e1 = self.cp(env)
                try:
                    self.trying.append(st.handlers)
                    try:
                        r, e1 = self.block(st.body + st.orelse, e1)
                    finally:
                        self.trying.pop()
                except PyRaise as exc:
                    h = next((h for h in st.handlers if self.catches(h, exc)), None)
                    if h is None:
                        if st.finalbody:
                            self.block(st.finalbody, e1)
                        raise
                    e1["$exc"], e1["$excname"] = exc, h.name
                    if h.name:
                        e1[h.name] = sym("exc")
                    r, e1 = self.block(h.body, e1)
                    alts = []
                    if st.finalbody:
                        rf, e1 = self.block(st.finalbody, e1)
                        if rf is not NORET:
                            return rf, e1
                    env = e1
                    if r is not NORET:
                        return r, env
                    continue
                alts = []
                if self.exact_try and r is not RAISED:
                    env = e1
                    if st.finalbody:
                        rf, env = self.block(st.finalbody, env)
                        if rf is not NORET:
                            return rf, env
                    if r is not NORET:
                        return r, env
                    continue
                s1 = self.save(e1)
                for h in st.handlers:
                    self.restore(s0)
                    e2 = self.cp(env)
                    if h.name:
                        e2[h.name] = Unknown("exc")
                    rr, e2 = self.block(h.body, e2)
                    if rr is not RAISED:
                        alts.append((rr, e2, self.save(e2)))
                self.restore(s0)
                self.restore(s1)
                if r is RAISED and len(alts) == 1:
                    r, e1, s1 = alts[0]
                    self.restore(s0)
                    self.restore(s1)
                elif alts:
                    # keep the normal path's value; a differing handler is gated
                    for rr, e2, s2 in alts:
                        if r is NORET and rr is NORET:
                            e1, _ = self.joinst("exception", e2, s2, e1, s1)
                            s1 = self.save(e1)
                            continue
                        if (r is NORET) != (rr is NORET):
                            # one side continues with the rest of the block
                            if r is NORET:
                                self.restore(s0)
                                self.restore(s1)
                                r, e1 = self.block(rest, e1)
                                s1 = self.save(e1)
                                r = None if r is NORET else r
                            else:
                                self.restore(s0)
                                self.restore(s2)
                                rr, e2 = self.block(rest, e2)
                                s2 = self.save(e2)
                                rr = None if rr is NORET else rr
                        e1, r = self.joinst("exception", e2, s2, e1, s1, rr, r)
                        s1 = self.save(e1)
                env = e1
                if st.finalbody:
                    rf, env = self.block(st.finalbody, env)
                    if rf is not NORET:
                        return rf, env
                if r is not NORET:
                    return r, env
                continue
            r, env = self.stmt(st, env)
            if r is not NORET:
                return r, env
        return NORET, env

    def inline_cm(self, st, env):
        """`with f(..) as x: body` for a @contextmanager-function of the project
        with a single yield-statement: the function's statements around the body
        (the function's own names are renamed)"""
        it = st.items[0]
        if not isinstance(it.context_expr, ast.Call):
            return None
        c = it.context_expr
        if any(isinstance(a, ast.Starred) for a in c.args) or any(k.arg is None for k in c.keywords):
            return None
        try:
            fv = self.ev(c.func, env)
        except PyRaise:
            return None
        if not isinstance(fv, FuncV) or fv.env is not None or isinstance(fv.func.node, ast.Lambda) or self.is_opaque(fv.func) is not None:
            return None
        f = fv.func
        if not any(ast.unparse(d).split(".")[-1] == "contextmanager" for d in f.node.decorator_list) or f.module is not env["$func"].module:
            return None
        ys = [n for b in f.node.body for n in walk_scope(b) if isinstance(n, (ast.Yield, ast.YieldFrom))]
        if len(ys) != 1 or not isinstance(ys[0], ast.Yield):
            return None
        a = f.node.args
        if a.vararg or a.kwarg or any(isinstance(n, ast.Return) for b in f.node.body for n in walk_scope(b)):
            return None
        names = f.params() + [k.arg for k in a.kwonlyargs]
        self._cm = getattr(self, "_cm", 0) + 1
        pre = f"cm__{self._cm}_"
        loc = set(names) | {n.id for b in f.node.body for n in walk_scope(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}

        class Ren(ast.NodeTransformer):
            def visit_Name(self, n):
                return ast.copy_location(ast.Name(pre + n.id, n.ctx), n) if n.id in loc else n

        inner = st.body if len(st.items) == 1 else [ast.copy_location(ast.With(st.items[1:], st.body), st)]
        done = []

        class Put(ast.NodeTransformer):
            def visit_Expr(self, n):
                if isinstance(n.value, ast.Yield):
                    done.append(1)
                    v = n.value.value
                    v = ast.Constant(None) if v is None else Ren().visit(v)
                    bind = [ast.copy_location(ast.Assign([it.optional_vars], v), st)] if it.optional_vars is not None else []
                    return [KeepNode(bind + inner)]
                return n

        class KeepNode(ast.stmt):
            _fields = ()

            def __init__(self, body):
                super().__init__()
                self.body = body

        class Ren2(Ren):
            def visit_KeepNode(self, n):
                return n

        body = [Ren2().visit(x) for x in (y for b in f.node.body for z in [Put().visit(ast.parse(ast.unparse(b)).body[0])] for y in (z if isinstance(z, list) else [z]))]
        if not done:
            return None
        body = sum((b if isinstance(b, list) else [b] for b in body), [])

        def flat(bs):
            out = []
            for b in bs:
                if isinstance(b, KeepNode):
                    out += b.body
                    continue
                for fld in ("body", "orelse", "finalbody"):
                    if isinstance(getattr(b, fld, None), list):
                        setattr(b, fld, flat(getattr(b, fld)))
                for h in getattr(b, "handlers", ()):
                    h.body = flat(h.body)
                out.append(b)
            return out

        body = flat(body)
        for b in body:
            ast.fix_missing_locations(b)
        posn = ([ClassV(f.cls)] if f.is_classmethod else [fv.selfv] if f.cls is not None and not f.is_static and fv.selfv is not None else []) + [self.ev(x, env) for x in c.args]
        kw = {k.arg: self.ev(k.value, env) for k in c.keywords}
        dfl = f.defaults()
        for n in names:
            if posn:
                env[pre + n] = posn.pop(0)
            elif n in kw:
                env[pre + n] = kw.pop(n)
            elif n in dfl:
                env[pre + n] = self.ev(dfl[n], {"$heap": env["$heap"], "$func": f})
            else:
                return None
        self.visited.add(f.qual)
        return body

    def catches(self, h, exc):
        if h.type is None:
            return True
        names = [n.attr if isinstance(n, ast.Attribute) else n.id for n in ast.walk(h.type) if isinstance(n, (ast.Name, ast.Attribute))]
        up = {"KeyError": ("LookupError",), "IndexError": ("LookupError",)}.get(exc.kind, ())
        return any(n in ("Exception", "BaseException", exc.kind, *up) for n in names)

    def caught(self, kind):
        """is the code running inside a try statement (of this or of a
        calling function) that handles the exception?"""
        return any(self.catches(h, PyRaise(kind)) for hs in self.trying for h in hs)

    def cp(self, env):
        e = dict(env)
        e["$heap"] = dict(env["$heap"])
        for k, v in e.items():
            if isinstance(v, FuncV) and v.env is env:
                e[k] = FuncV(v.func, v.selfv, e)
        return e

    # ---- container store: lists, dicts, iterators and mutable model objects
    # are shared by reference; branches run on saved / restored contents
    def reach(self, *envs):
        seen, out, todo = set(), [], []
        for e in list(envs) + self.frames:
            if isinstance(e, dict):
                if id(e) not in seen:
                    seen.add(id(e))
                    todo.extend(e.values())
            else:
                todo.append(e)
        while todo:
            v = todo.pop()
            if isinstance(v, (Rat, str, int, float, bool)) or v is None or id(v) in seen:
                continue
            seen.add(id(v))
            if isinstance(v, dict):
                todo.extend(v.values())
            elif isinstance(v, (list, tuple)):
                todo.extend(v)
            elif isinstance(v, (Seq, IterV)):
                out.append(v)
                todo.extend(v.items)
            elif isinstance(v, DictV):
                out.append(v)
                todo.extend(v.d.values())
            elif isinstance(v, ModelObj):
                out.append(v)
                todo.extend(vars(v).values())
            elif isinstance(v, Ite):
                todo += [v.a, v.b]
            elif isinstance(v, Star):
                todo.append(v.v)
            elif isinstance(v, Partial):
                todo += [v.f] + list(v.args) + list(v.kw.values())
            elif isinstance(v, BoundM):
                todo.append(v.val)
            elif isinstance(v, FuncV):
                todo.append(v.selfv)
                if v.env is not None:
                    todo.append(v.env)
        return out

    @staticmethod
    def contents(v):
        if isinstance(v, Seq):
            return (list(v.items), v.kind)
        if isinstance(v, IterV):
            return (list(v.items), v.pos)
        if isinstance(v, DictV):
            return (dict(v.d), v.default)
        return {k: (list(x) if isinstance(x, list) else dict(x) if type(x) is dict else x) for k, x in vars(v).items() if k != "ev"}

    def save(self, *envs):
        return [(v, self.contents(v)) for v in self.reach(*envs)]

    @staticmethod
    def restore(state):
        for v, c in state:
            if isinstance(v, Seq):
                v.items, v.kind = list(c[0]), c[1]
            elif isinstance(v, IterV):
                v.items, v.pos = list(c[0]), c[1]
            elif isinstance(v, DictV):
                v.d, v.default = dict(c[0]), c[1]
            else:
                for k, x in c.items():
                    setattr(v, k, list(x) if isinstance(x, list) else dict(x) if type(x) is dict else x)

    @staticmethod
    def samec(a, b):
        if isinstance(a, dict):
            return a.keys() == b.keys() and all(same_item(a[k], b[k]) for k in a)
        x, y = a[0], b[0]
        if isinstance(x, dict):
            return list(x) == list(y) and all(same_item(x[k], y[k]) for k in x)
        return a[1] == b[1] and len(x) == len(y) and all(same_item(p, q) for p, q in zip(x, y))

    def joinst(self, c, e1, s1, e2, s2, r1=None, r2=None):
        """join two branches: common containers keep their identity, diverging contents are gated"""
        m2 = {id(v): x for v, x in s2}
        self.restore(s2)
        self.restore(s1)
        diverged = {}
        for v, x in s1:
            y = m2.get(id(v))
            if y is None or self.samec(x, y):
                continue
            if isinstance(v, Seq) and len(x[0]) == len(y[0]):
                v.items = [self.merge(c, p, q) for p, q in zip(x[0], y[0])]
            elif isinstance(v, DictV) and x[0].keys() == y[0].keys():
                v.d = {k: self.merge(c, x[0][k], y[0][k]) for k in x[0]}
            elif isinstance(v, Seq):
                diverged[id(v)] = Ite(c.text if isinstance(c, Cond) else c, Seq(*x), Seq(*y))
            elif isinstance(v, DictV):
                a, b = DictV(x[0]), DictV(y[0])
                a.default = b.default = v.default
                diverged[id(v)] = Ite(c.text if isinstance(c, Cond) else c, a, b)
            else:
                diverged[id(v)] = self.unknown(f"{key(v)[:60]} differs between branches")
        env = self.join(c, e1, e2)
        r = self.merge(c, r1, r2)
        if diverged:
            r = self.replace_refs(diverged, env, r)
        return env, r

    def replace_refs(self, mp, env, r=None):
        """rebind every reference to the given containers"""
        seen = set()

        def val(v):
            if id(v) in mp:
                return mp[id(v)]
            if isinstance(v, (Rat, str, int, float, bool)) or v is None or id(v) in seen:
                return v
            seen.add(id(v))
            if isinstance(v, dict):
                for k in list(v):
                    v[k] = val(v[k])
            elif isinstance(v, (Seq, IterV)):
                v.items = [val(x) for x in v.items]
            elif isinstance(v, DictV):
                v.d = {k: val(x) for k, x in v.d.items()}
            elif isinstance(v, Ite):
                v.a, v.b = val(v.a), val(v.b)
            elif isinstance(v, Partial):
                v.args = [val(x) for x in v.args]
                v.kw = {k: val(x) for k, x in v.kw.items()}
            elif isinstance(v, FuncV) and v.env is not None:
                val(v.env)
            return v
        val(env)
        for e in self.frames:
            val(e)
        return val(r)

    def merge(self, c, a, b):
        if a is b or key(a) == key(b):
            return a
        if isnum(a) and isnum(b):
            try:
                if asrat(a).equals(asrat(b)):
                    return a
            except Undecided:
                pass
        if isinstance(c, Cond):
            c = c.text
        if isinstance(a, Seq) and isinstance(b, Seq) and len(a.items) == len(b.items):
            return Seq([self.merge(c, x, y) for x, y in zip(a.items, b.items)], a.kind)
        if isinstance(a, DictV) and isinstance(b, DictV) and a.d.keys() == b.d.keys():
            return DictV({k: self.merge(c, a.d[k], b.d[k]) for k in a.d})
        return Ite(c, a, b)

    def join(self, c, e1, e2):
        out = {}
        for k in set(e1) | set(e2):
            if k in ("$heap", "$func"):
                continue
            if k == "$yield" and key(e1.get(k)) != key(e2.get(k)):
                out[k] = Unknown("conditional yield")
                continue
            if k in e1 and k in e2:
                out[k] = self.merge(c, e1[k], e2[k])
            else:
                out[k] = self.merge(c, e1.get(k, Unknown("unbound")), e2.get(k, Unknown("unbound")))
        out["$func"] = e1["$func"]
        for k, v in out.items():
            if isinstance(v, FuncV) and v.env is not None and (v.env is e1 or v.env is e2):
                out[k] = FuncV(v.func, v.selfv, out)
        h1, h2 = e1["$heap"], e2["$heap"]
        h = {}
        for k in set(h1) | set(h2):
            d = asrat_sym(k)
            h[k] = self.merge(c, h1.get(k, d), h2.get(k, d))
        out["$heap"] = h
        return out

    def stmt(self, st, env):
        if isinstance(st, ast.Return):
            return (self.ev(st.value, env) if st.value is not None else None), env
        if isinstance(st, ast.Raise):
            if self.exact_try and not self.gates:
                if st.exc is None and env.get("$exc") is not None:
                    raise env["$exc"]
                x = st.exc.func if isinstance(st.exc, ast.Call) else st.exc
                if isinstance(x, ast.Name) and env.get("$excname") == x.id:
                    raise env["$exc"]
                raise PyRaise(x.id if isinstance(x, ast.Name) else x.attr if isinstance(x, ast.Attribute) else "Exception")
            return RAISED, env
        if isinstance(st, ast.Assert):
            t = self.truth(self.ev(st.test, env), st.test)
            if t is False:
                if self.exact_try and not self.gates:
                    raise PyRaise("AssertionError")
                return RAISED, env
            self.asserts.append("True" if t is True else t.text)
            return NORET, env
        if isinstance(st, ast.Assign):
            v = self.ev(st.value, env)
            for t in st.targets:
                self.assign(t, v, env)
        elif isinstance(st, ast.AnnAssign):
            if st.value is not None:
                self.assign(st.target, self.ev(st.value, env), env)
        elif isinstance(st, ast.AugAssign):
            cur = self.ev(_load(st.target), env)
            v = self.ev(st.value, env)
            if isinstance(st.op, ast.Add) and isinstance(cur, Seq) and cur.kind == "list" and self.concrete(v) is not None:
                cur.items.extend(self.concrete(v))
                return NORET, env
            if isinstance(st.op, ast.BitOr) and isinstance(cur, DictV) and isinstance(v, DictV):
                cur.d.update(v.d)
                return NORET, env
            self.assign(st.target, self.binop(st.op, cur, v, st), env)
        elif isinstance(st, ast.Expr):
            self.effect(st.value, env)
        elif isinstance(st, (ast.Pass, ast.Global, ast.Nonlocal)):
            pass
        elif isinstance(st, (ast.Import, ast.ImportFrom)):
            for a in st.names:
                if isinstance(st, ast.Import):
                    env[a.asname or a.name.split(".")[0]] = ModV(a.name if a.asname else a.name.split(".")[0])
                else:
                    base = ("rt1" + ("." + st.module if st.module else "")) if st.level else st.module
                    env[a.asname or a.name] = self.wrap(self.P.resolve_dotted(f"{base}.{a.name}"), env)
        elif isinstance(st, (ast.FunctionDef,)):
            f = Func(st, env["$func"].module, None, env["$func"])
            env[st.name] = FuncV(f, None, env)
        elif isinstance(st, ast.ClassDef):
            env[st.name] = ClassV(Cls(st, env["$func"].module), env)
        elif isinstance(st, ast.Delete):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    env.pop(t.id, None)
                elif isinstance(t, ast.Attribute):
                    o = self.ev(t.value, env)
                    if isinstance(o, Obj):
                        if hasattr(self, "drop"):
                            self.drop(o, self.mangle(t.attr, env))
                        else:
                            env["$heap"].pop((o.path, self.mangle(t.attr, env)), None)
                elif isinstance(t, ast.Subscript):
                    o, k = self.ev(t.value, env), self.ev(t.slice, env)
                    if isinstance(o, DictV) and isinstance(k, (str, int)) and k in o.d:
                        del o.d[k]
                    elif isinstance(o, Seq) and isinstance(k, int) and -len(o.items) <= k < len(o.items):
                        del o.items[k]
                    elif isinstance(o, (DictV, Seq)):
                        self.replace_refs({id(o): self.unknown("del", st)}, env)
        elif isinstance(st, ast.For):
            return self.loop(st, env)
        elif isinstance(st, ast.While):
            for _ in range(64):
                t = self.truth(self.ev(st.test, env), st.test)
                if t is False:
                    return (self.block(st.orelse, env) if st.orelse else (NORET, env))
                if t is not True:
                    break
                r, env = self.block(st.body, env)
                if r is BRK:
                    return NORET, env
                if r is not NORET and r is not CNT:
                    return r, env
            for n in ast.walk(st):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    env[n.id] = self.unknown("while", st)
            s0, e2 = self.save(env), self.cp(env)
            _, e2 = self.block(st.body, e2)
            self.loop_heap(env, e2, st)
            self.loop_store(env, s0, st)
            return NORET, env
        elif isinstance(st, ast.Break):
            return BRK, env
        elif isinstance(st, ast.Continue):
            return CNT, env
        else:
            self.unknown(type(st).__name__, st)
        return NORET, env

    def effect(self, e, env):
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute):
            m = e.func.attr
            tgt = e.func.value
            if m in ("append", "extend", "insert", "update", "add", "pop", "remove", "clear", "sort", "reverse", "discard"):
                cur = self.ev(tgt, env)
                if not isinstance(cur, (Seq, DictV, ModelObj, Obj, ClassV, ModV, Ext)) and isinstance(tgt, (ast.Name, ast.Attribute)):
                    self.ev(e, env)
                    self.assign(_store(tgt), self.unknown(f"{m} on {unparse(tgt)}", e), env)
                    return
        self.ev(e, env)

    def mutate(self, v, m, args, kw, node, env):
        """in-place methods of the builtin containers; None when not applicable"""
        bad = None
        if isinstance(v, Seq) and v.kind == "list":
            if m == "append" and len(args) == 1:
                v.items.append(args[0])
                return (None,)
            if m == "extend" and len(args) == 1:
                c = self.concrete(args[0])
                if c is not None:
                    v.items.extend(list(c))
                    return (None,)
                bad = m
            if m == "insert" and isinstance(args[0], int):
                v.items.insert(args[0], args[1])
                return (None,)
            if m == "pop" and (not args or isinstance(args[0], int)):
                if not v.items:
                    raise PyRaise("IndexError")
                return (v.items.pop(*args),)
            if m == "remove" and plain(args[0]) is not None and all(plain(x) is not None for x in v.items):
                ps = [plain(x) for x in v.items]
                if plain(args[0]) not in ps:
                    raise PyRaise("ValueError")
                v.items.pop(ps.index(plain(args[0])))
                return (None,)
            if m == "clear":
                v.items.clear()
                return (None,)
            if m == "reverse":
                v.items.reverse()
                return (None,)
            if m == "sort":
                r = self.ext_call("builtins.sorted", [v], kw, node, env)
                if isinstance(r, Seq):
                    v.items = list(r.items)
                    return (None,)
                bad = m
            if m in ("append", "extend", "insert", "pop", "remove", "sort"):
                bad = m
        if isinstance(v, Seq) and v.kind == "set":
            if m == "add" and plain(args[0]) is not None:
                v.items = dedupe(v.items + [args[0]])
                return (None,)
            if m in ("discard", "remove") and plain(args[0]) is not None and all(plain(x) is not None for x in v.items):
                v.items = [x for x in v.items if plain(x) != plain(args[0])]
                return (None,)
            if m == "update" and all(self.concrete(a) is not None for a in args):
                v.items = dedupe(v.items + [x for a in args for x in self.concrete(a)])
                return (None,)
            if m in ("add", "discard", "remove", "update"):
                bad = m
        if isinstance(v, DictV):
            if m == "update":
                new = {}
                for a in args:
                    if isinstance(a, DictV):
                        new.update(a.d)
                    elif isinstance(a, (Seq, IterV)) and all(isinstance(x, Seq) and len(x.items) == 2 for x in a.items):
                        new.update({(x.items[0] if isinstance(x.items[0], (str, int)) else key(x.items[0])): x.items[1] for x in self.concrete(a)})
                    else:
                        bad = m
                if "**" in kw:
                    bad = m
                new.update({k: x for k, x in kw.items() if k != "**"})
                if not bad:
                    v.d.update(new)
                    return (None,)
            if m == "setdefault" and args:
                k = args[0] if isinstance(args[0], (str, int)) else key(args[0])
                if k not in v.d:
                    v.d[k] = args[1] if len(args) > 1 else None
                return (v.d[k],)
            if m == "pop" and args and isinstance(args[0], (str, int)):
                if args[0] not in v.d:
                    if len(args) > 1:
                        return (args[1],)
                    raise PyRaise("KeyError")
                return (v.d.pop(args[0]),)
            if m == "pop":
                bad = m
            if m == "clear":
                v.d.clear()
                return (None,)
        if bad:
            u = self.unknown(f"{bad} on a container", node)
            self.replace_refs({id(v): u}, env)
            return (u,)
        return None

    def loop(self, st, env):
        it = self.ev(st.iter, env)
        items = self.concrete(it)
        if items is not None and len(items) <= 64:
            broke = False
            for x in items:
                self.assign(st.target, x, env)
                r, env = self.block(st.body, env)
                if r is BRK:
                    broke = True
                    break
                if r is not NORET and r is not CNT:
                    return r, env
            if st.orelse and not broke:
                return self.block(st.orelse, env)
            return NORET, env
        rng = self.as_index(it)
        assigned = sorted(
            {n.id for b in st.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            | {n.func.value.id for b in st.body for n in ast.walk(b)
               if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "append"
               and isinstance(n.func.value, ast.Name)}
        )
        if rng is None:
            for a in assigned:
                env[a] = self.unknown("loop", st)
            e2 = self.cp(env)
            s0 = self.save(env)
            self.assign(st.target, alg.call("elt", [key(it)]), e2)
            r, e2 = self.block(_decontinue(st.body), e2)
            self.loop_heap(env, e2, st)
            self.loop_store(env, s0, st)
            if "$yield" in env and e2.get("$yield") is not env["$yield"]:
                env["$yield"] = Unknown("yield in a loop")
            if r not in (NORET, CNT, BRK, RAISED):
                return self.unknown("return in loop", st), env
            return NORET, env
        var, count, elem = rng
        e2 = self.cp(env)
        accs = {}
        for a in assigned:
            if a in env and not (isinstance(st.target, ast.Name) and a == st.target.id):
                init = env[a]
                if isinstance(init, Seq):
                    e2[a] = Seq([], "list")
                    accs[a] = ("list", init)
                else:
                    s = fresh("acc")
                    e2[a] = sym(s)
                    accs[a] = (s, init)
        self.assign(st.target, elem, e2)
        s0 = self.save(env)
        r, e2 = self.block(_decontinue(st.body), e2)
        self.loop_store(env, s0, st)
        if r is not NORET and r is not CNT:
            for a in assigned:
                env[a] = self.unknown("return in loop", st)
            return self.unknown("return in loop", st), env
        self.loop_heap(env, e2, st)
        if "$yield" in env and e2.get("$yield") is not env["$yield"]:
            env["$yield"] = Unknown("yield in a loop")
        accsyms = {v[0] for v in accs.values()}
        pre = {}   # accumulator -> (value at the start of iteration `var`, value at its end, increment)

        def resolve(t):
            """`t` (a value within the body) without accumulator symbols"""
            if not isinstance(t, Rat) or not (t.atoms() & accsyms):
                return t
            if not (t.atoms() & accsyms) <= set(pre):
                return None
            c = [alg.subst(t, {x: p[0] for x, p in pre.items()}), alg.subst(t, {x: p[1] - p[2] for x, p in pre.items()})]
            return min(c, key=lambda x: len(x.key()))

        todo = [a for a in accs if accs[a][0] != "list"]
        while todo:
            done = []
            for a in todo:
                s, init = accs[a]
                out = e2.get(a)
                try:
                    g = resolve(asrat(out) - sym(s)) if isnum(init) else None
                    if g is not None and not (g.atoms() & accsyms):
                        j = fresh("j")
                        gj = alg.subst(g, {var: sym(j)})
                        env[a] = asrat(init) + alg.mksum(rat(0), count - 1, g, var)
                        pre[s] = (asrat(init) + alg.mksum(rat(0), sym(var) - 1, gj, j), asrat(init) + alg.mksum(rat(0), sym(var), gj, j), g)
                        done.append(a)
                        continue
                    q = asrat(out) / sym(s)
                    if not (q.atoms() & accsyms) and key(q) == "1":
                        done.append(a)
                    elif not (q.atoms() & (accsyms | {var})) and isnum(init):
                        env[a] = asrat(init) * alg.power(q, count)
                        p0 = asrat(init) * alg.power(q, sym(var))
                        pre[s] = (p0, p0 * q, p0 * (q - 1))
                        done.append(a)
                except Undecided as ex:
                    env[a] = self.unknown(str(ex), st)
                    todo = [x for x in todo if x != a]
            if not done:
                break
            todo = [x for x in todo if x not in done]
        for a in todo:
            env[a] = self.unknown(f"loop-carried {a}", st)
        for a, (s, init) in accs.items():
            if s != "list":
                continue
            out = e2.get(a)
            if isinstance(out, Seq) and len(out.items) == 1 and not init.items:
                x = out.items[0]
                try:
                    x = resolve(x)
                except Undecided as ex:
                    x = None
                if x is None or any(t in key(x) for t in accsyms):
                    env[a] = self.unknown("list of loop-carried values", st)
                else:
                    env[a] = Arr(var, count, x)
            elif isinstance(out, Seq) and not out.items:
                pass
            else:
                env[a] = self.unknown("list loop", st)
        for a in assigned:
            if a not in accs:
                env[a] = self.unknown("loop local", st)
        return NORET, env

    def loop_store(self, env, s0, st):
        """containers that the body of a symbolic loop modifies"""
        mp = {id(v): self.unknown("modified in a loop", st) for v, c in s0 if not self.samec(c, self.contents(v))}
        self.restore(s0)
        if mp:
            self.replace_refs(mp, env)

    def loop_heap(self, env, e2, st):
        h, h2 = env["$heap"], e2["$heap"]
        for k in h2:
            if k not in h or key(h[k]) != key(h2[k]):
                h[k] = self.unknown(f"loop-carried {k[0]}.{k[1]}", st)

    def concrete(self, it):
        if isinstance(it, IterV):
            return it.take()
        if isinstance(it, ModelObj):
            return it.iter(self)
        if isinstance(it, Seq) and not any(isinstance(x, Star) for x in it.items):
            return it.items
        if isinstance(it, DictV):
            return list(it.d)
        if isinstance(it, Range):
            lo, hi = it.lo.const(), it.hi.const()
            if lo is not None and hi is not None and hi - lo <= 64:
                return [int(lo) + i for i in range(max(0, int(hi - lo)))]
        if isinstance(it, str):
            return list(it)
        return None

    def as_index(self, it):
        """(var, count, element) for iterables of symbolic length"""
        if isinstance(it, Range):
            v = fresh("n")
            return v, it.hi - it.lo, sym(v) + it.lo
        if isinstance(it, Arr):
            v = fresh("n")
            b = it.body
            def sub(x):
                if isinstance(x, Rat):
                    return alg.subst(x, {it.var: sym(v)})
                if isinstance(x, Seq):
                    return Seq([sub(y) for y in x.items], x.kind)
                return x
            return v, it.count, sub(b)
        return None

    # ----------------------------------------------------------- assignments
    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = None
            if isinstance(v, Seq) and len(v.items) == len(t.elts) and not any(
                isinstance(x, (ast.Starred,)) for x in t.elts
            ) and not any(isinstance(x, Star) for x in v.items):
                items = v.items
            if items is None and not isinstance(v, Ite):
                c = self.concrete(v) if isinstance(v, (Seq, DictV, IterV, ModelObj, str)) else None
                st = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
                if c is not None and st and len(c) >= len(t.elts) - 1:
                    n = len(t.elts) - 1 - st[0]
                    items = list(c[:st[0]]) + [Seq(list(c[st[0]:len(c) - n]), "list")] + list(c[len(c) - n:])
                    for x, y in zip(t.elts, items):
                        self.assign(x.value if isinstance(x, ast.Starred) else x, y, env)
                    return
                if c is not None and not st and len(c) == len(t.elts):
                    items = c
                elif c is not None and self.exact_try:
                    raise PyRaise("ValueError")
                elif self.exact_try and (v is None or isinstance(v, (bool, int, float))):
                    raise PyRaise("TypeError")
            if items is None and isinstance(v, Ite):
                a, b = v.a, v.b
                if isinstance(a, Seq) and isinstance(b, Seq) and len(a.items) == len(b.items) == len(t.elts):
                    items = [self.merge(v.cond, x, y) for x, y in zip(a.items, b.items)]
            for i, x in enumerate(t.elts):
                if items is not None:
                    self.assign(x, items[i], env)
                else:
                    self.assign(x.value if isinstance(x, ast.Starred) else x,
                                alg.call("item", [rat(i), key(v)]) if not is_unknown(v) else v, env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            if isinstance(o, ModelObj):
                o.setattr(self, t.attr, v, env)
                return
            if isinstance(o, Obj):
                nm = self.mangle(t.attr, env)
                s = self.P.find_setter(o.cls, nm) if o.cls else None
                if s is not None:
                    if self.depth <= self.maxdepth:
                        self.call_func(FuncV(s, o), [v], {}, t, env["$heap"])
                    return
                env["$heap"][(o.path, nm)] = v
            elif isinstance(o, Rat):
                env["$heap"][(o.key(), t.attr)] = v
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            k = self.ev(t.slice, env)
            if isinstance(o, ModelObj) and o.setitem(self, k, v, env) is not NotImplemented:
                return
            if isinstance(k, Rat) and k.const() is not None and k.const().denominator == 1:
                k = int(k.const())
            if isinstance(o, DictV) and isinstance(k, (str, int)):
                o.d[k] = v
            elif isinstance(o, Seq) and isinstance(k, int) and -len(o.items) <= k < len(o.items):
                o.items[k] = v
            elif isinstance(o, Seq) and isinstance(k, SliceV) and k.concrete() is not None and self.concrete(v) is not None:
                o.items[k.concrete()] = list(self.concrete(v))
            elif isinstance(o, (Seq, DictV)):
                try:
                    nv = alg.call("setitem", [key(o), key(k), key(v)])
                except Undecided:
                    nv = self.unknown("setitem", t)
                self.replace_refs({id(o): nv}, env)
            elif isinstance(t.value, (ast.Name, ast.Attribute)):
                try:
                    nv = alg.call("setitem", [key(o), key(k), key(v)])
                except Undecided:
                    nv = self.unknown("setitem", t)
                self.assign(_store(t.value), nv, env)

    def mangle(self, name, env):
        if name.startswith("__") and not name.endswith("__"):
            f = env.get("$func")
            while f is not None and f.cls is None and f.parent is not None:
                f = f.parent
            if f is not None and f.cls is not None:
                return f"_{f.cls.name.lstrip('_')}{name}"
        return name

    # ---------------------------------------------------------- expressions
    def truth(self, v, node):
        if isinstance(v, (bool, int, float, str)) or v is None:
            return bool(v)
        if isinstance(v, Rat):
            c = v.const()
            if c is not None:
                return c != 0
        if isinstance(v, Seq):
            return bool(v.items)
        if isinstance(v, DictV):
            return bool(v.d)
        if isinstance(v, (Obj, FuncV, ClassV, Lam, Partial, BoundM)) or getattr(v, "truthy", False) is True:
            return True
        t = v.text if isinstance(v, Cond) else key(v)
        f = self.fact(t)
        if f is not None:
            return f
        return Cond(t)

    def ev(self, e, env):
        try:
            return self._ev(e, env)
        except Undecided as ex:
            return self.unknown(str(ex), e)
        except RecursionError:
            return self.unknown("recursion", e)

    def _ev(self, e, env):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return self.unknown(type(e).__name__, e)
        return m(e, env)

    def e_Constant(self, e, env):
        return e.value

    def e_Name(self, e, env):
        if e.id in env and not e.id.startswith("$"):
            return env[e.id]
        f = env.get("$func")
        while f is not None:
            r = self.P.resolve(f.module, e.id)
            break
        if f is not None and r is not None:
            return self.wrap(r, env)
        if e.id in ("True", "False", "None"):
            return {"True": True, "False": False, "None": None}[e.id]
        return Ext("builtins." + e.id)

    def wrap(self, r, env):
        if isinstance(r, Func):
            return FuncV(r)
        if isinstance(r, Cls):
            return ClassV(r)
        if isinstance(r, Module):
            return ModV(r.name)
        if isinstance(r, tuple) and r[0] == "ext":
            d = r[1]
            if d in ("numpy.pi", "math.pi", "sympy.pi"):
                return alg.PI
            if d.split(".")[0] in EXTMODS and d.count(".") == 0:
                return ModV(d)
            return Ext(d)
        if isinstance(r, tuple) and r[0] == "global":
            _, mod, name, expr = r
            f = Func(ast.parse("def _g(): pass").body[0], mod)
            return self.ev(expr, {"$heap": {}, "$func": f})
        return Ext("?" + repr(r))

    def e_Attribute(self, e, env):
        o = self.ev(e.value, env)
        return self.getattr(o, self.mangle(e.attr, env), env, e)

    def getattr(self, o, name, env, node=None):
        heap = env["$heap"]
        if isinstance(o, ModelObj):
            r = o.attr(self, name, env)
            return BoundM(o, name) if r is NotImplemented else r
        if isinstance(o, Obj):
            if (o.path, name) in heap:
                return heap[(o.path, name)]
            full = f"{o.path}.{name}"
            if full in self.attrs:
                return self.attrs[full]
            if full in self.types:
                return Obj(full, self.types[full])
            if o.cls is not None:
                p = self.P.find_prop(o.cls, name)
                if p is not None:
                    nm = self.is_opaque(p)
                    if nm is None:
                        for k in self.P.mro(o.cls):
                            nm = nm or self.opaque.get(f"{k.name}.{name}")
                    if nm is not None:
                        return nm(self, o, {}, []) if callable(nm) else sym(f"{nm}")
                    return self.call_func(FuncV(p, o), [], {}, node, heap)
                f = self.P.find_method(o.cls, name)
                if f is not None:
                    return FuncV(f, None if f.is_static else o)
                at = self.P.find_attr(o.cls, name)
                if at is not None and not self.instance_attr(o.cls, name):
                    fx = Func(ast.parse("def _g(): pass").body[0], at[1].module)
                    return self.ev(at[0], {"$heap": {}, "$func": fx})
            return sym(full)
        if isinstance(o, Super):
            m = self.P.mro(o.obj.cls)
            i = next((j for j, k in enumerate(m) if k.node is o.cls.node), 0)
            for k in m[i + 1:]:
                if name in k.methods:
                    return FuncV(k.methods[name], o.obj)
            return Ext("builtins._noop")
        if isinstance(o, ModV):
            if o.dotted in self.P.modules:
                r = self.P.resolve(self.P.modules[o.dotted], name)
                if r is not None:
                    return self.wrap(r, env)
            r = self.P.resolve_dotted(f"{o.dotted}.{name}")
            if isinstance(r, tuple):
                return self.wrap(r, env)
            return self.wrap(r, env)
        if isinstance(o, Ext):
            if o.dotted + "." + name in ("numpy.pi", "math.pi", "sympy.pi"):
                return alg.PI
            if o.dotted + "." + name in ("os.sep", "os.path.sep"):
                return "/"
            return Ext(f"{o.dotted}.{name}")
        if isinstance(o, ClassV):
            f = self.P.find_method(o.cls, name)
            if f is not None:
                return FuncV(f)
            for c in self.P.mro(o.cls):
                if f"{c.name}.{name}" in c.module.nested:
                    return ClassV(c.module.nested[f"{c.name}.{name}"])
            at = self.P.find_attr(o.cls, name)
            if at is not None:
                return self.ev(at[0], {"$heap": {}, "$func": Func(ast.parse("def _g(): pass").body[0], at[1].module)})
        if isinstance(o, Rat) and (o.key(), name) in heap:
            return heap[(o.key(), name)]
        if name in ("T", "values", "real") and isinstance(o, (Rat, Arr)):
            return BoundM(o, name)
        return BoundM(o, name)

    def instance_attr(self, cls, name):
        for k in self.P.mro(cls):
            for f in list(k.methods.values()) + list(k.setters.values()):
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.ctx, ast.Store):
                        return True
        return False

    def num(self, v):
        if isinstance(v, BoundM):
            return alg.call("attr:" + v.name, [key(v.val)])
        if isinstance(v, (Rat, int, float)) and not isinstance(v, bool):
            return asrat(v)
        if isinstance(v, Unknown):
            raise Undecided(v.why)
        return asrat(v)

    def lift(self, f, *vs):
        """apply a Rat function elementwise over Arr / Seq operands"""
        arrs = [v for v in vs if isinstance(v, Arr)]
        if arrs:
            a0 = arrs[0]
            for a in arrs[1:]:
                if not (a.count - a0.count).is_zero():
                    raise Undecided("length mismatch")
            args = []
            for v in vs:
                if isinstance(v, Arr):
                    b = v.body
                    args.append(alg.subst(b, {v.var: sym(a0.var)}) if isinstance(b, Rat) else b)
                else:
                    args.append(v)
            return Arr(a0.var, a0.count, self.lift(f, *args))
        nds = [v for v in vs if isinstance(v, Seq) and v.kind == "ndarray"]
        if nds:
            n = len(nds[0].items)
            if any(isinstance(v, Seq) and len(v.items) != n for v in vs):
                raise Undecided("shape")
            return Seq([self.lift(f, *[v.items[i] if isinstance(v, Seq) else v for v in vs]) for i in range(n)], "ndarray")
        # ite with a common gate is lifted too
        for i, v in enumerate(vs):
            if isinstance(v, Ite):
                def at(b):
                    return self.lift(f, *[
                        (w.a if b else w.b) if isinstance(w, Ite) and w.cond == v.cond else w for w in vs])
                return self.merge(v.cond, at(True), at(False))
        return f(*[self.num(v) for v in vs])

    def binop(self, op, a, b, node):
        if isinstance(a, Unknown):
            return a
        if isinstance(b, Unknown):
            return b
        for x, y, sw in ((a, b, False), (b, a, True)):
            if isinstance(x, ModelObj):
                r = x.binop(self, op, y, sw)
                if r is not NotImplemented:
                    return r
        if isinstance(op, ast.BitOr) and isinstance(a, DictV) and isinstance(b, DictV):
            return DictV({**a.d, **b.d})
        if isinstance(op, (ast.BitAnd, ast.BitOr, ast.Sub, ast.BitXor)):
            sa = self.asset(a, b)
            sb = self.asset(b, a)
            if sa is not None and sb is not None:
                ka, kb = [key(x) for x in sa], [key(x) for x in sb]
                if isinstance(op, ast.BitAnd):
                    return Seq([x for x, k in zip(sa, ka) if k in kb], "set")
                if isinstance(op, ast.Sub):
                    return Seq([x for x, k in zip(sa, ka) if k not in kb], "set")
                if isinstance(op, ast.BitOr):
                    return Seq(dedupe(sa + sb), "set")
                return Seq([x for x, k in zip(sa, ka) if k not in kb] + [x for x, k in zip(sb, kb) if k not in ka], "set")
        if isinstance(op, ast.Add):
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            if any(isinstance(x, str) for x in (a, b)) and all(isinstance(x, (str, Rat)) for x in (a, b)):
                return self.strcat([a, b])
            nd = any(isinstance(x, Seq) and x.kind == "ndarray" for x in (a, b))
            if isinstance(a, Seq) and isinstance(b, Seq) and not nd:
                return Seq(a.items + b.items, a.kind)
            if nd:
                return self.lift(lambda x, y: x + y, a, b)
            if isinstance(a, Seq) and isinstance(b, Rat):
                return Seq(a.items + [Star(b)], a.kind)
            if isinstance(b, Seq) and isinstance(a, Rat):
                return Seq([Star(a)] + b.items, b.kind)
            return self.lift(lambda x, y: x + y, a, b)
        if isinstance(op, ast.Sub):
            return self.lift(lambda x, y: x - y, a, b)
        if isinstance(op, ast.Mult):
            if isinstance(a, str) or isinstance(b, str):
                return self.unknown("str*", node)
            if isinstance(a, Seq) and a.kind != "ndarray" and isinstance(b, int):
                return Seq(a.items * b, a.kind)
            return self.lift(lambda x, y: x * y, a, b)
        if isinstance(op, ast.Div):
            return self.lift(lambda x, y: x / y, a, b)
        if isinstance(op, ast.Pow):
            return self.lift(lambda x, y: alg.power(x, y), a, b)
        nm = {ast.Mod: "mod", ast.FloorDiv: "floordiv", ast.BitAnd: "and", ast.BitOr: "or",
              ast.MatMult: "matmul", ast.BitXor: "xor"}.get(type(op))
        if nm is None:
            return self.unknown(type(op).__name__, node)
        if nm == "mod" and isinstance(a, str):
            vals = b.items if isinstance(b, Seq) and b.kind == "tuple" else [b]
            ps = a.split("%s")
            if len(ps) == len(vals) + 1 and "%" not in "".join(ps):
                return self.strcat([x for p, v in zip(ps, list(vals) + [""]) for x in (p, v if isinstance(v, str) else self.tostr(v))])
            return self.unknown("str%", node)
        ca = asrat(a).const() if isnum(a) else None
        cb = asrat(b).const() if isnum(b) else None
        if ca is not None and cb:
            if nm == "mod":
                return rat(ca % cb)
            if nm == "floordiv":
                return rat(F(ca // cb))
        return self.lift(lambda x, y: alg.call(nm, [x, y]), a, b)

    def asset(self, v, other):
        """operand of a set operation as list"""
        if isinstance(v, Seq) and v.kind in ("set", "keys") and not any(isinstance(x, Star) for x in v.items):
            return list(v.items)
        if isinstance(v, Seq) and v.kind != "ndarray" and isinstance(other, Seq) and other.kind == "keys":
            return list(v.items)
        return None

    def e_BinOp(self, e, env):
        return self.binop(e.op, self.ev(e.left, env), self.ev(e.right, env), e)

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(v, ModelObj) and not isinstance(e.op, ast.Not):
            r = v.unary(self, e.op)
            if r is not NotImplemented:
                return r
        if isinstance(e.op, ast.Not):
            t = self.truth(v, e)
            if isinstance(t, bool):
                return not t
            return Cond(f"not({t.text})") if not t.text.startswith("not(") else Cond(t.text[4:-1])
        if isinstance(e.op, ast.USub):
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                return -v
            return self.lift(lambda x: -x, v)
        if isinstance(e.op, ast.Invert) and isinstance(v, Seq) and v.kind == "ndarray" and all(isinstance(x, bool) for x in v.items):
            return Seq([not x for x in v.items], "ndarray")
        if isinstance(e.op, ast.UAdd):
            return v
        return self.lift(lambda x: alg.call("invert", [x]), v)

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        texts = []
        for x in e.values:
            v = self.ev(x, env)
            t = self.truth(v, x)
            if t is True or t is False:
                if t != isand:
                    # decides: value of `or`/`and` chain
                    if not texts:
                        return v
                    return t if not isand or True else t
                last = v
                continue
            texts.append(t.text)
            last = v
        if not texts:
            return last
        if len(texts) == 1:
            if t not in (True, False):  # everything before is decided: the value is the one of the last operand
                return last
            return Cond(texts[0])
        return Cond((" and " if isand else " or ").join(sorted(texts)))

    def e_Compare(self, e, env):
        vals = [self.ev(x, env) for x in [e.left] + e.comparators]
        res = []
        for op, a, b in zip(e.ops, vals, vals[1:]):
            res.append(self.cmp(op, a, b))
        if len(res) == 1 and isinstance(res[0], (Seq, Unknown, ModelObj)):
            return res[0]
        if all(isinstance(r, bool) for r in res):
            return all(res)
        if any(r is False for r in res):
            return False
        ts = [r.text for r in res if isinstance(r, Cond)]
        return Cond(" and ".join(ts))

    def ndcmp(self, op, a, b):
        depth = lambda v: 1 + depth(v.items[0]) if isinstance(v, Seq) and v.items else 0
        if not isinstance(a, Seq) and not isinstance(b, Seq):
            return self.cmp(op, a, b)
        da, db = depth(a), depth(b)
        if da == db:
            if len(a.items) != len(b.items):
                return self.unknown("shape")
            return Seq([self.ndcmp(op, x, y) for x, y in zip(a.items, b.items)], "ndarray")
        if da > db:
            return Seq([self.ndcmp(op, x, b) for x in a.items], "ndarray")
        return Seq([self.ndcmp(op, a, y) for y in b.items], "ndarray")

    def cmp(self, op, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, ModelObj):
                if isinstance(op, (ast.In, ast.NotIn)) and x is b:
                    r = x.contains(self, a)
                    if r is not None:
                        return r == isinstance(op, ast.In)
                elif x is a:
                    r = x.compare(self, op, y)
                    if r is not NotImplemented:
                        return r
                if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) and y is None:
                    return isinstance(op, (ast.IsNot, ast.NotEq))
            if isinstance(x, (Partial, FuncV, Lam, ClassV, BoundM)) and y is None and isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
                return isinstance(op, (ast.IsNot, ast.NotEq))
        simple = lambda v: v is None or isinstance(v, (bool, int, float, str))
        if isinstance(op, (ast.Eq, ast.NotEq, ast.Lt, ast.LtE, ast.Gt, ast.GtE)) and any(
                isinstance(v, Seq) and v.kind == "ndarray" for v in (a, b)):
            return self.ndcmp(op, a, b)
        if isinstance(op, (ast.Eq, ast.NotEq)) and isinstance(a, Seq) and isinstance(b, Seq) and plain(a) and plain(b):
            return (plain(a) == plain(b)) == isinstance(op, ast.Eq)
        if isinstance(op, (ast.Is, ast.Eq, ast.IsNot, ast.NotEq)):
            neg = isinstance(op, (ast.IsNot, ast.NotEq))
            r = None
            if any(simple(x) and x is not None and (isinstance(y, DictV) or isinstance(y, Seq) and y.kind in ("list", "tuple", "set")) for x, y in ((a, b), (b, a))):
                r = False
            elif simple(a) and simple(b):
                if isinstance(a, bool) != isinstance(b, bool) and isinstance(op, (ast.Is, ast.IsNot)):
                    r = False
                else:
                    r = a == b
            elif isnum(a) and isnum(b) and isinstance(op, (ast.Eq, ast.NotEq)):
                d = (asrat(a) - asrat(b)).const()
                if d is not None:
                    r = d == 0
            elif (a is None and isinstance(b, (Seq, DictV, Obj, FuncV, ClassV, Arr))) or (
                b is None and isinstance(a, (Seq, DictV, Obj, FuncV, ClassV, Arr))):
                r = False
            if r is None:
                ka, kb = key(a), key(b)
                if isinstance(op, (ast.Eq, ast.NotEq)) and kb < ka:
                    ka, kb = kb, ka
                t = f"{ka}=={kb}"
                f = self.fact(t)
                if f is None:
                    return Cond(f"not({t})" if neg else t)
                r = f
            return (not r) if neg else r
        if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
            if isnum(a) and isnum(b):
                d = (asrat(a) - asrat(b)).const()
                if d is not None:
                    return {ast.Lt: d < 0, ast.LtE: d <= 0, ast.Gt: d > 0, ast.GtE: d >= 0}[type(op)]
            s = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}[type(op)]
            if s in (">", ">="):
                a, b, s = b, a, {">": "<", ">=": "<="}[s]
            t = f"{key(a)}{s}{key(b)}"
            f = self.fact(t)
            return f if f is not None else Cond(t)
        if isinstance(op, (ast.In, ast.NotIn)):
            neg = isinstance(op, ast.NotIn)
            r = None
            if simple(a):
                if isinstance(b, Seq) and all(simple(x) for x in b.items):
                    r = a in b.items
                elif isinstance(b, DictV):
                    r = a in b.d
                elif isinstance(b, str) and isinstance(a, str):
                    r = a in b
            if r is None:
                t = f"{key(a)} in {key(b)}"
                f = self.fact(t)
                if f is None:
                    return Cond(f"not({t})" if neg else t)
                r = f
            return (not r) if neg else r
        return Cond("cmp")

    def e_IfExp(self, e, env):
        c = self.truth(self.ev(e.test, env), e.test)
        if c is True:
            return self.ev(e.body, env)
        if c is False:
            return self.ev(e.orelse, env)
        return self.merge(c, self.ev(e.body, env), self.ev(e.orelse, env))

    def e_Tuple(self, e, env):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, env)
                c = v.items if isinstance(v, Seq) else self.concrete(v)
                if c is not None:
                    out.extend(c)
                else:
                    out.append(Star(v))
            else:
                out.append(self.ev(x, env))
        return Seq(out, "tuple" if isinstance(e, ast.Tuple) else "list")

    e_List = e_Tuple

    def e_Set(self, e, env):
        s = self.e_Tuple(e, env)
        s.kind = "set"
        return s

    def e_Dict(self, e, env):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = self.ev(v, env)
                if hasattr(x, "as_dict"):
                    x = x.as_dict()
                if isinstance(x, DictV):
                    d.update(x.d)
                    continue
                return self.unknown("**dict", e)
            kk = self.ev(k, env)
            if isinstance(kk, (str, int, bool, float)) or kk is None:
                d[kk] = self.ev(v, env)
            else:
                d[key(kk)] = self.ev(v, env)
        return DictV(d)

    def e_JoinedStr(self, e, env):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(str(v.value))
                continue
            x = self.ev(v.value, env)
            if v.format_spec is not None or v.conversion not in (-1, 115):
                sp = unparse(v.format_spec) if v.format_spec is not None else ""
                out.append(alg.call("fmt", [key(x), sp, str(v.conversion)]))
            elif isinstance(x, (str, int)) and not isinstance(x, bool):
                out.append(str(x))
            else:
                out.append(self.tostr(x))
        return self.strcat(out)

    def tostr(self, x):
        """str(x) of a symbolic value"""
        if isinstance(x, ModelObj) and isinstance(getattr(x, "text", None), str):
            return x.text
        k = key(x)
        if k in self.cats or k.startswith(("str(", "fstr(", "fmt(")):
            return x
        if isinstance(x, Rat):
            return alg.call("str", [x])
        return alg.call("str", [k])

    def strcat(self, parts):
        """concatenation of strings, independent of how it is written (f-string, +, format, %)"""
        flat = []
        for p in parts:
            q = self.cats.get(key(p)) if not isinstance(p, str) else None
            for x in q or [p]:
                if isinstance(x, str) and flat and isinstance(flat[-1], str):
                    flat[-1] += x
                elif x != "":
                    flat.append(x)
        flat = [x for x in flat if not (isinstance(x, str) and x == "")]
        if not flat:
            return ""
        if len(flat) == 1:
            return flat[0]
        r = alg.call("fstr", [repr(x) if isinstance(x, str) else key(x) for x in flat])
        self.cats[key(r)] = flat
        return r

    def e_Lambda(self, e, env):
        return FuncV(Func(e, env["$func"].module, None, env["$func"]), None, env)

    def e_Starred(self, e, env):
        return Star(self.ev(e.value, env))

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        self.assign(e.target, v, env)
        return v

    def e_Slice(self, e, env):
        return SliceV(*[self.ev(x, env) if x is not None else None for x in (e.lower, e.upper, e.step)])

    def e_Subscript(self, e, env):
        o = self.ev(e.value, env)
        i = self.ev(e.slice, env)
        return self.index(o, i, e)

    def index(self, o, i, node=None):
        if isinstance(o, ModelObj):
            r = o.item(self, i)
            if r is not NotImplemented:
                return r
        if isinstance(i, Rat) and i.const() is not None and i.const().denominator == 1:
            i = int(i.const())
        if isinstance(o, Seq) and isinstance(i, int) and not isinstance(i, bool):
            if -len(o.items) <= i < len(o.items) and not any(isinstance(x, Star) for x in o.items[: i + 1 if i >= 0 else None]):
                return o.items[i]
            if not any(isinstance(x, Star) for x in o.items) and self.caught("IndexError"):
                raise PyRaise("IndexError")
        if isinstance(i, SliceV) and isinstance(o, (Seq, str)) and not (isinstance(o, Seq) and any(isinstance(x, Star) for x in o.items)):
            c = i.concrete()
            if c is not None:
                return o[c] if isinstance(o, str) else Seq(o.items[c], o.kind)
        if isinstance(o, Seq) and isinstance(i, Seq) and o.kind == "ndarray" and plain(i) is not None:
            ii = [plain(x)[1] for x in i.items]
            if all(isinstance(x, bool) for x in ii) and len(ii) == len(o.items):
                return Seq([x for x, b in zip(o.items, ii) if b], "ndarray")
            return Seq([o.items[int(x)] for x in ii], "ndarray")
        if isinstance(o, DictV):
            if isinstance(i, (str, int)) and i in o.d:
                return o.d[i]
            if key(i) in o.d:
                return o.d[key(i)]
            if o.default is not None and isinstance(i, (str, int)):
                o.d[i] = self.apply(o.default, [], {}, node, {"$heap": {}, "$func": None})
                return o.d[i]
            if isinstance(i, (str, int)) and self.caught("KeyError"):
                raise PyRaise("KeyError")
        if isinstance(o, str) and isinstance(i, int):
            if -len(o) <= i < len(o):
                return o[i]
        if isinstance(o, Arr) and isnum(i) and isinstance(o.body, Rat):
            return alg.subst(o.body, {o.var: asrat(i)})
        if isinstance(o, Unknown):
            return o
        if isinstance(o, Ite):
            return self.merge(o.cond, self.index(o.a, i, node), self.index(o.b, i, node))
        return alg.call("item", [key(o), key(i)])

    # -- comprehensions
    def comp(self, e, env, elt):
        gen = e.generators
        if len(gen) != 1:
            out = []

            def rec(i, env2):
                if i == len(gen):
                    out.append(elt(env2))
                    return True
                c = self.concrete(self.ev(gen[i].iter, env2))
                if c is None:
                    return False
                for x in c:
                    e3 = dict(env2)
                    self.assign(gen[i].target, x, e3)
                    keep = True
                    for cnd in gen[i].ifs:
                        t = self.truth(self.ev(cnd, e3), cnd)
                        if t is False:
                            keep = False
                            break
                        if t is not True:
                            return False
                    if keep and not rec(i + 1, e3):
                        return False
                return True
            if rec(0, env):
                return Seq(out, "list")
            h = self.ext.get("itertools.chain.from_iterable")
            if h is not None and len(gen) == 2 and not gen[0].ifs and not gen[1].ifs and isinstance(e, (ast.ListComp, ast.GeneratorExp)) \
                    and all(isinstance(g.target, ast.Name) for g in gen) and isinstance(gen[1].iter, ast.Name) and gen[1].iter.id == gen[0].target.id \
                    and isinstance(e.elt, ast.Name) and e.elt.id == gen[1].target.id:
                return h(self, [self.ev(gen[0].iter, env)], {})
            return self.unknown("nested comprehension", e)
        g = gen[0]
        it = self.ev(g.iter, env)
        items = self.concrete(it)
        if items is not None and len(items) <= 64:
            out = []
            for x in items:
                e2 = dict(env)
                self.assign(g.target, x, e2)
                keep = True
                for c in g.ifs:
                    t = self.truth(self.ev(c, e2), c)
                    if t is False:
                        keep = False
                    elif t is not True:
                        return alg.call("comp", [unparse(e), key(it)])
                if keep:
                    out.append(elt(e2))
            return Seq(out, "list")
        if g.ifs:
            return alg.call("comp", [unparse(e), key(it)])
        idx = self.as_index(it)
        if idx is None:
            s = fresh("e")
            e2 = dict(env)
            self.assign(g.target, sym("$elt"), e2)
            return alg.call("map", [key(elt(e2)), key(it)])
        var, count, el = idx
        e2 = dict(env)
        self.assign(g.target, el, e2)
        return Arr(var, count, elt(e2))

    def e_ListComp(self, e, env):
        return self.comp(e, env, lambda e2: self.ev(e.elt, e2))

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, env):
        r = self.e_ListComp(e, env)
        if isinstance(r, Seq) and all(plain(x) is not None for x in r.items):
            return Seq(dedupe(r.items), "set")
        return r

    def e_DictComp(self, e, env):
        r = self.comp(e, env, lambda e2: Seq([self.ev(e.key, e2), self.ev(e.value, e2)], "tuple"))
        if isinstance(r, Seq) and all(isinstance(x, Seq) and isinstance(x.items[0], (str, int)) for x in r.items):
            return DictV({x.items[0]: x.items[1] for x in r.items})
        if isinstance(r, Seq) and r.items and all(isinstance(x, Seq) and len(x.items) == 2 and isinstance(x.items[0], Rat)
                                                  and x.items[0].single_atom() is not None for x in r.items):
            return DictV({key(x.items[0]): x.items[1] for x in r.items})
        return r

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, env):
        f = self.ev(e.func, env)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, env)
                if isinstance(v, Seq):
                    args.extend(v.items)
                elif isinstance(v, (IterV, DictV)) or (isinstance(v, Range) and self.concrete(v) is not None):
                    args.extend(self.concrete(v))
                else:
                    args.append(Star(v))
            else:
                args.append(self.ev(a, env))
        for k in e.keywords:
            v = self.ev(k.value, env)
            if k.arg is None:
                if hasattr(v, "as_dict"):
                    v = v.as_dict()
                if isinstance(v, DictV):
                    kw.update(v.d)
                else:
                    kw["**"] = v
            else:
                kw[k.arg] = v
        return self.apply(f, args, kw, e, env)

    def apply(self, f, args, kw, node, env):
        self.heap = env["$heap"]
        self.node = node
        if isinstance(f, ModelObj):
            r = f.call(self, args, kw, env)
            if r is not NotImplemented:
                return r
        if isinstance(f, FuncV):
            return self.call_func(f, args, kw, node, env["$heap"])
        if isinstance(f, Lam):
            mp, extra = {}, []
            pos = list(args)
            star = []
            expr = self.num(f.expr)
            free, rest = {}, dict(kw)
            has = expr.atoms()
            for p in f.params:
                if isinstance(p, Star):
                    star.append(key(p.v))
                    continue
                a = p.single_atom() if isinstance(p, Rat) else (p if isinstance(p, str) else None)
                if pos:
                    if a is None:
                        return self.unknown("lambdify parameter", node)
                    x = pos.pop(0)
                elif a in rest:
                    x = rest.pop(a)
                elif kw.get("**") is None and not any(isinstance(x, Star) for x in args):
                    raise PyRaise("TypeError")
                else:
                    continue
                if isinstance(p, str) and p not in has:
                    free[p] = x
                else:
                    mp[a] = asrat(x)
            if not star and kw.get("**") is None and (pos or rest):
                raise PyRaise("TypeError")
            if star:
                extra.append("*" + ",".join(star))
            extra += ["*" + key(x) for x in pos]
            extra += [f"{k}={key(v)}" for k, v in sorted([*rest.items(), *free.items()])]
            return self.at(self.num(f.expr), mp, extra)
        if isinstance(f, Partial):
            k = dict(f.kw)
            k.update(kw)
            return self.apply(f.f, f.args + args, k, node, env)
        if isinstance(f, Ext):
            return self.ext_call(f.dotted, args, kw, node, env)
        if isinstance(f, BoundM):
            return self.method(f, args, kw, node, env)
        if isinstance(f, Ite):
            return self.merge(f.cond, self.apply(f.a, args, kw, node, env), self.apply(f.b, args, kw, node, env))
        if isinstance(f, ClassV) and self.instantiate:
            o = Obj(fresh(f.cls.name), f.cls)
            init = self.P.find_method(f.cls, "__init__")
            if init is not None:
                r = self.call_func(FuncV(init, o, f.env), args, kw, node, env["$heap"])
                if isinstance(r, Unknown):
                    return r
            return o
        if isinstance(f, ClassV):
            return alg.call("new:" + f.cls.qual, [key(a) for a in args] + [f"{k}={key(v)}" for k, v in sorted(kw.items())])
        if isinstance(f, Unknown):
            return f
        if any(isinstance(a, Unknown) for a in args):
            return next(a for a in args if isinstance(a, Unknown))
        if isinstance(f, Rat):
            return alg.call("apply", [f.key()] + [asrat(a) if isnum(a) else key(a) for a in args] + [f"{k}={key(v)}" for k, v in sorted(kw.items())])
        return alg.call("apply", [key(f)] + [asrat(a) if isnum(a) else key(a) for a in args] + [f"{k}={key(v)}" for k, v in sorted(kw.items())])

    def method(self, f, args, kw, node, env):
        v, m = f.val, f.name
        if isinstance(v, Unknown):
            return v
        if isinstance(v, ModelObj):
            r = v.method(self, m, args, kw, env)
            if r is not NotImplemented:
                return r
        r = self.mutate(v, m, args, kw, node, env) if isinstance(v, (Seq, DictV)) else None
        if r is not None:
            return r[0]
        if m == "__getitem__" and len(args) == 1 and not kw:
            return self.index(v, args[0], node)
        if m == "__contains__" and len(args) == 1 and not kw:
            return self.cmp(ast.In(), args[0], v)
        if m == "copy" and isinstance(v, Seq):
            return Seq(v.items, v.kind)
        if m == "tolist" and isinstance(v, Seq):
            return Seq(v.items, "list")
        if m in ("doit", "expand", "simplify", "evalf", "copy", "squeeze", "ravel", "flatten", "tolist", "astype", "trigsimp") and isinstance(v, (Rat, Arr, Seq)):
            return v
        if isinstance(v, DictV):
            if m == "get":
                k = args[0]
                if isinstance(k, (str, int)):
                    return v.d.get(k, args[1] if len(args) > 1 else None)
            if m == "keys":
                return Seq(list(v.d), "keys")
            if m == "values":
                return Seq(list(v.d.values()))
            if m == "items":
                return Seq([Seq([k, x], "tuple") for k, x in v.d.items()])
            if m == "copy":
                return DictV(v.d)
        if isinstance(v, str) and m == "format" and not kw and "{" in v:
            ps = v.split("{}")
            if len(ps) == len(args) + 1 and "{" not in "".join(ps):
                return self.strcat([x for p, w in zip(ps, list(args) + [""]) for x in (p, w if isinstance(w, str) else self.tostr(w))])
        if isinstance(v, str) and m == "join" and len(args) == 1 and not kw and isinstance(args[0], (Seq, IterV, DictV)):
            c = self.concrete(args[0])
            if c is not None and all(isinstance(x, str) or key(x) in self.cats for x in c):
                return self.strcat([y for i, x in enumerate(c) for y in ([v, x] if i else [x])])
        if isinstance(v, str) and m in ("startswith", "endswith") and len(args) == 1 and isinstance(args[0], Seq) and all(isinstance(x, str) for x in args[0].items):
            return getattr(v, m)(tuple(args[0].items))
        if isinstance(v, str) and m == "split" and not args and set(kw) <= {"maxsplit"} | {"sep"} and all(isinstance(x, (str, int)) for x in kw.values()):
            return Seq(v.split(**kw))
        if isinstance(v, str) and m in ("split", "rsplit") and len(args) == 1 and isinstance(args[0], str) and set(kw) == {"maxsplit"} and isinstance(kw["maxsplit"], int):
            return Seq(getattr(v, m)(args[0], kw["maxsplit"]))
        if isinstance(v, str) and all(isinstance(a, (str, int)) for a in args) and not kw:
            if m in ("startswith", "endswith", "lower", "upper", "strip", "lstrip", "rstrip", "split", "replace", "removeprefix", "zfill", "ljust", "rjust", "isidentifier", "isdigit", "isalpha", "isnumeric", "isupper", "islower", "isspace", "isalnum", "isdecimal", "removesuffix", "rsplit", "partition", "rpartition", "splitlines", "find", "rfind", "count", "title", "capitalize", "swapcase", "casefold", "istitle"):
                r = getattr(v, m)(*args)
                return Seq(r) if isinstance(r, list) else Seq(list(r), "tuple") if isinstance(r, tuple) else r
        if isinstance(v, Seq) and m in ("index", "count") and len(args) == 1 and plain(args[0]) is not None:
            ps = [plain(x) for x in v.items]
            if all(x is not None for x in ps):
                if m == "count":
                    return ps.count(plain(args[0]))
                if plain(args[0]) in ps:
                    return ps.index(plain(args[0]))
                raise PyRaise("ValueError")
        if isinstance(v, Seq) and m in ("all", "any") and not any(isinstance(x, (Seq, Star)) for x in v.items) and all(isinstance(x, bool) for x in v.items):
            return all(v.items) if m == "all" else any(v.items)
        if isinstance(v, Seq) and m in ("all", "any") and v.items and all(
                isinstance(x, Seq) and all(isinstance(y, bool) for y in x.items) for x in v.items):
            ax = kw.get("axis", args[0] if args else None)
            g = all if m == "all" else any
            if ax in (1, -1):
                return Seq([g(x.items) for x in v.items], "ndarray")
            if ax is None:
                return g(y for x in v.items for y in x.items)
        if m == "nonzero" and isinstance(v, Seq):
            return self.ext_call("numpy.where", [v], {}, node, env)
        if m == "sum" and isinstance(v, Seq) and not args and not kw:
            return self.ext_call("numpy.sum", [v], {}, node, env)
        if m == "sum" and isinstance(v, Arr):
            return alg.mksum(rat(0), v.count - 1, self.num(v.body), v.var)
        if m == "diff" and isinstance(v, Rat) and args:
            return self.symdiff([v] + args, kw, node)
        if m in ("xreplace", "subs") and isinstance(v, Rat) and len(args) == 1 and isinstance(args[0], DictV):
            mp = {}
            ok = True
            for k, x in args[0].d.items():
                if isinstance(x, (Rat, int, float)) and not isinstance(x, bool):
                    mp[k] = asrat(x)
                else:
                    ok = False
            if ok:
                return self.at(v, mp)
        if m in ("__name__",):
            return self.unknown(m, node)
        h = self.ext.get("." + m)
        if h:
            return h(self, v, args, kw)
        return alg.call("m:" + m, [key(v)] + [key(a) for a in args] + [f"{k}={key(x)}" for k, x in sorted(kw.items())])

    # -- sympy level function objects ---------------------------------------
    def at(self, expr, mp, extra=()):
        """expr with the free angles replaced; opaque scattering functions
        (symbols ending in ``._func``) become  at(F; angle=value, ...)"""
        def one(a):
            if a.endswith("._func") and alg.ATOMS[a].kind == "sym":
                return alg.call("at", [sym(a)] + [x for k in sorted(mp) for x in (k + ":=", mp[k])] + list(extra))
            return None
        reps = {a: one(a) for a in expr.atoms() if one(a) is not None}
        def chained(a):
            """replacement after replacement: at(at(F; m1); m2) = at(F; m1 with m2 applied to its values, rest of m2)"""
            args = alg.ATOMS[a].args
            if not isinstance(args[0], Rat) or args[0].single_atom() is None or not str(args[0].single_atom()).endswith("._func"):
                return None
            d, r = {}, list(args[1:])
            while len(r) >= 2 and isinstance(r[0], str) and r[0].endswith(":="):
                d[r[0][:-2]] = r[1]
                r = r[2:]
            if r:
                return None
            new = {k: alg.subst(asrat(x), mp) for k, x in d.items()}
            new.update({k: x for k, x in mp.items() if k not in d})
            return alg.call("at", [args[0]] + [x for k in sorted(new) for x in (k + ":=", new[k])] + list(extra))

        if expr.single_atom() is not None and alg.ATOMS[expr.single_atom()].kind == "call" and alg.ATOMS[expr.single_atom()].extra == "at":
            r = chained(expr.single_atom())
            if r is not None:
                return r
        hasD = [a for a in expr.atoms(deep=False) if alg.ATOMS[a].kind == "call" and alg.ATOMS[a].extra in ("D", "at")]
        if hasD:
            if expr.single_atom() is None:
                m2 = dict(mp)
                for a in hasD:
                    m2[a] = self.at(sym_atom(a), mp, extra)
                return alg.subst(expr, m2)
            return alg.call("at", [expr] + [x for k in sorted(mp) for x in (k + ":=", mp[k])] + list(extra))
        reps.update(mp)
        return alg.subst(expr, reps)

    def symdiff(self, args, kw, node):
        expr, var = self.num(args[0]), self.num(args[1])
        n = args[2] if len(args) > 2 else kw.get("n", 1)
        return alg.call("D", [expr, var, asrat(n) if isnum(n) else key(n)])

    def lambdify(self, params, expr, node):
        if isinstance(params, Star):
            params = params.v
        items = params.items if isinstance(params, Seq) else [params]
        return Lam(items, expr)

    def ext_plain(self, d, args, kw):
        """interpretation of an external function without the installed handler"""
        h = self.ext.pop(d, None)
        try:
            return self.ext_call(d, args, kw, self.node, self.frames[-1] if self.frames else {"$heap": {}, "$func": None})
        finally:
            if h is not None:
                self.ext[d] = h

    def ext_call(self, d, args, kw, node, env):
        h = self.ext.get(d)
        if h:
            return h(self, args, kw)
        root, _, last = d.rpartition(".")
        top = d.split(".")[0]
        if top == "itertools":
            if last == "chain":
                cs = [self.concrete(a) for a in args]
                if all(c is not None for c in cs):
                    return IterV([x for c in cs for x in c])
            if d == "itertools.chain.from_iterable":
                cs = self.concrete(args[0])
                if cs is not None:
                    cs = [self.concrete(a) for a in cs]
                    if all(c is not None for c in cs):
                        return IterV([x for c in cs for x in c])
            if last == "repeat" and len(args) == 2 and isnum(args[1]) and asrat(args[1]).const() is not None:
                return IterV([args[0]] * int(asrat(args[1]).const()))
            if last == "islice" and len(args) == 2 and (args[1] is None or isnum(args[1])):
                n = None if args[1] is None else int(asrat(args[1]).const()) if asrat(args[1]).const() is not None else -1
                if n != -1:
                    if isinstance(args[0], IterV):
                        return IterV(args[0].take(n))
                    c = self.concrete(args[0])
                    if c is not None:
                        return IterV(c[:n])
            if last == "groupby" and args:
                c = self.concrete(args[0])
                kf = kw.get("key", args[1] if len(args) > 1 else None)
                if c is not None:
                    out = []
                    for x in c:
                        k = x if kf is None else self.apply(kf, [x], {}, node, env)
                        if out and key(out[-1][0]) == key(k):
                            out[-1][1].append(x)
                        elif plain(k) is None:
                            out = None
                            break
                        else:
                            out.append((k, [x]))
                    if out is not None:
                        return IterV([Seq([k, Seq(g)], "tuple") for k, g in out])
            if last in ("permutations", "combinations", "product") and args and not kw:
                cs = [self.concrete(a) for a in (args if last == "product" else args[:1])]
                n = args[1] if last != "product" and len(args) == 2 else None
                n = int(asrat(n).const()) if n is not None and isnum(n) and asrat(n).const() is not None else n
                if all(c is not None for c in cs) and (last == "product" or isinstance(n, int) or n is None and last == "permutations"):
                    its = itertools.product(*cs) if last == "product" else getattr(itertools, last)(cs[0], *([] if n is None else [n]))
                    return IterV([Seq(list(t), "tuple") for t in its])
            if last == "compress" and len(args) == 2:
                c, m = self.concrete(args[0]), self.concrete(args[1])
                if c is not None and m is not None:
                    ts = [self.truth(x, node) for x in m]
                    if all(isinstance(t, bool) for t in ts):
                        return IterV([x for x, t in zip(c, ts) if t])
            if last == "accumulate" and len(args) == 1:
                c = self.concrete(args[0])
                if c is not None:
                    out = []
                    for x in c:
                        out.append(x if not out else self.binop(ast.Add(), out[-1], x, node))
                    return IterV(out)
        if top == "builtins" and last == "iter" and len(args) == 1:
            if isinstance(args[0], IterV):
                return args[0]
            c = self.concrete(args[0])
            if c is not None:
                return IterV(c)
        if top == "builtins" and last == "next" and args and isinstance(args[0], IterV):
            t = args[0].take(1)
            if t:
                return t[0]
            if len(args) > 1:
                return args[1]
            return self.unknown("StopIteration", node)
        if top == "builtins" and last in ("list", "tuple", "set", "frozenset", "sorted") and len(args) == 1 and isinstance(args[0], (IterV, ModelObj, DictV)):
            c = self.concrete(args[0])
            if c is not None:
                args = [Seq(c)]
        if top == "builtins" and last == "sorted" and isinstance(args[0], (Seq, DictV)) and not kw:
            c = self.concrete(args[0])
            if c is not None and all(isinstance(x, str) for x in c):
                return Seq(sorted(c))
        if top == "builtins" and last == "filter" and len(args) == 2:
            c = self.concrete(args[1])
            if c is not None:
                ts = [self.truth(x if args[0] is None else self.apply(args[0], [x], {}, node, env), node) for x in c]
                if all(t is True or t is False for t in ts):
                    return IterV([x for x, t in zip(c, ts) if t])
        if d == "builtins.dict.fromkeys" and args:
            c = self.concrete(args[0])
            if c is not None and all(isinstance(x, (str, int)) for x in c):
                return DictV({x: args[1] if len(args) > 1 else None for x in c})
        if top == "functools" and last == "reduce" and len(args) >= 2:
            c = self.concrete(args[1])
            if c is not None:
                c = list(args[2:3]) + list(c)
                r = c[0]
                for x in c[1:]:
                    r = self.apply(args[0], [r, x], {}, node, env)
                return r
        if d == "collections.OrderedDict" or d == "collections.defaultdict":
            n = args[1:] if last == "defaultdict" else args
            r = self.ext_call("builtins.dict", list(n), kw, node, env)
            if isinstance(r, DictV):
                r = DictV(r.d)
                if last == "defaultdict" and args:
                    r.default = args[0]
                return r
        if d == "numpy.isscalar" and isinstance(args[0], (Seq, DictV, Arr)):
            return False
        if d == "numpy.isscalar" and isinstance(args[0], (int, float, str, bool)):
            return True
        if d == "keyword.iskeyword" and args and isinstance(args[0], str):
            import keyword
            return keyword.iskeyword(args[0])
        if d == "operator.itemgetter" and len(args) == 1:
            return Partial(Ext("operator.$getitem"), [args[0]], {})
        if d == "operator.$getitem" and len(args) == 2:
            return self.index(args[1], args[0], node)
        if d == "operator.attrgetter" and len(args) == 1 and isinstance(args[0], str):
            return Partial(Ext("operator.$getattr"), [args[0]], {})
        if d == "operator.$getattr" and len(args) == 2:
            o = args[1]
            for p in args[0].split("."):
                o = self.getattr(o, p, env, node)
            return o
        if top == "functools" and last == "partial":
            return Partial(args[0], args[1:], kw)
        if top == "functools" and last in ("lru_cache", "wraps"):
            return Ext("builtins._identity")
        if d == "builtins._identity":
            return args[0]
        if d == "builtins._noop":
            return None
        if top == "operator" and len(args) == 2:
            op = {"add": ast.Add(), "mul": ast.Mult(), "sub": ast.Sub(), "truediv": ast.Div(), "pow": ast.Pow()}.get(last)
            if op:
                return self.binop(op, args[0], args[1], node)
        if top in ("numpy", "sympy", "symengine", "math", "scipy"):
            if any(isinstance(a, Unknown) for a in args):
                return next(a for a in args if isinstance(a, Unknown))
            if last == "acos":
                last = "arccos"
            if last in ELEM and len(args) == 1:
                return self.lift(lambda x: alg.fn(last, x), args[0])
            if last == "absolute" and len(args) == 1:
                return self.lift(lambda x: alg.fn("abs", x), args[0])
            if last in BIN and len(args) == 2:
                op = {"+": ast.Add(), "-": ast.Sub(), "*": ast.Mult(), "/": ast.Div(), "**": ast.Pow()}[BIN[last]]
                return self.binop(op, args[0], args[1], node)
            if last in ("Mul", "Add"):
                r = args[0]
                for a in args[1:]:
                    r = self.binop(ast.Mult() if last == "Mul" else ast.Add(), r, a, node)
                return r
            if last == "Pow" and len(args) == 2:
                return self.binop(ast.Pow(), args[0], args[1], node)
            if last == "square":
                return self.binop(ast.Mult(), args[0], args[0], node)
            if last == "negative":
                return self.lift(lambda x: -x, args[0])
            if last == "expm1" and len(args) == 1:
                return self.lift(lambda x: alg.fn("exp", x) - 1, args[0])
            if last == "log1p" and len(args) == 1:
                return self.lift(lambda x: alg.fn("log", x + 1), args[0])
            if last == "log2" and len(args) == 1:
                return self.lift(lambda x: alg.fn("log", x) / alg.fn("log", rat(2)), args[0])
            if last in ("sec", "csc", "cot") and len(args) == 1:
                return self.lift(lambda x: rat(1) / alg.fn({"sec": "cos", "csc": "sin", "cot": "tan"}[last], x), args[0])
            if last == "positive" and len(args) == 1:
                return args[0]
            if last == "reciprocal":
                return self.lift(lambda x: rat(1) / x, args[0])
            if last in ("deg2rad", "radians"):
                return self.lift(lambda x: x * alg.PI / 180, args[0])
            if last in ("rad2deg", "degrees"):
                return self.lift(lambda x: x * 180 / alg.PI, args[0])
            if last == "cumsum" and args and isinstance(args[0], Arr) and isnum(args[0].body) and (len(args) > 1 and key(args[1]) == "0" or key(kw.get("axis")) == "0"):
                a, j = args[0], fresh("j")
                return Arr(a.var, a.count, alg.mksum(rat(0), sym(a.var), alg.subst(asrat(a.body), {a.var: sym(j)}), j))
            if last in ("stack", "vstack", "row_stack") and len(args) == 1 and isinstance(args[0], Arr) and (last != "stack" or key(kw.get("axis", 0)) == "0"):
                return args[0]
            if last in IDENT and args:
                if isinstance(args[0], Seq) and len(args[0].items) == 1 and isnum(args[0].items[0]):
                    return args[0].items[0]
                if isinstance(args[0], Seq) and not any(isinstance(x, Star) for x in args[0].items):
                    return Seq(args[0].items, "ndarray")
                return args[0]
            if last in ("ones_like", "ones"):
                return 1
            if last in ("zeros_like", "zeros"):
                return 0
            if last == "expn" and len(args) == 2:
                return self.lift(lambda a, b: alg.call("expn", [a, b]), *args)
            if last == "broadcast_arrays":
                if len(args) == 1 and isinstance(args[0], Star) and isinstance(args[0].v, Arr):
                    return args[0].v
                return Seq(args, "list")
            if last == "unique" and len(args) == 1:
                return alg.call("uniq", [asrat(args[0]) if isnum(args[0]) else key(args[0])])
            if last in ("diff", "Derivative") and len(args) >= 2:
                return self.symdiff(args, kw, node)
            if last == "lambdify" and len(args) >= 2:
                return self.lambdify(args[0], args[1], node)
            if last in ("Symbol",) and args and isinstance(args[0], str):
                return sym(args[0])
            if last in ("symbols", "var") and args and isinstance(args[0], str):
                n = [s for s in args[0].replace(",", " ").split()]
                return sym(n[0]) if len(n) == 1 else Seq([sym(s) for s in n], "tuple")
            if last == "Rational" and len(args) == 2:
                return self.lift(lambda a, b: a / b, *args)
            if last in ("Integer", "Float", "S", "Number") and len(args) == 1:
                return args[0]
            if last in ("KroneckerDelta", "binomial", "legendre"):
                return self.lift(lambda a, b: alg.call(last, sorted([a, b], key=lambda r: r.key()) if last == "KroneckerDelta" else [a, b]), *args[:2])
            if last == "Sum" and len(args) == 2 and isinstance(args[1], Seq) and len(args[1].items) == 3:
                n, lo, hi = args[1].items
                a = n.single_atom() if isinstance(n, Rat) else None
                if a:
                    return alg.mksum(asrat(lo), asrat(hi), self.num(args[0]), a)
            if last == "sum" and args:
                v = args[0]
                if isinstance(v, Arr):
                    return alg.mksum(rat(0), v.count - 1, self.num(v.body), v.var)
                if isinstance(v, Seq) and not any(isinstance(x, Star) for x in v.items):
                    r = 0
                    for x in v.items:
                        r = self.binop(ast.Add(), r, x, node)
                    return r
            if last == "einsum" and args and isinstance(args[0], str) and len(args) > 1:
                # an element-wise product, summed over the first axis
                ins, _, out = args[0].replace(" ", "").partition("->")
                ins = ins.split(",")
                if len(ins) == len(args) - 1 and len(set(ins)) == 1 and ins[0][-3:] == "..." and len(ins[0]) == 4 and out == "...":
                    r = args[1]
                    for a in args[2:]:
                        r = self.binop(ast.Mult(), r, a, node)
                    if isinstance(r, Arr):
                        return alg.mksum(rat(0), r.count - 1, self.num(r.body), r.var)
            if last in ("where", "flatnonzero", "nonzero", "argwhere") and len(args) == 1 and isinstance(args[0], Seq) and all(
                    isinstance(x, bool) for x in args[0].items):
                ii = Seq([i for i, x in enumerate(args[0].items) if x], "ndarray")
                return ii if last == "flatnonzero" else Seq([ii], "tuple")
            if last == "take" and len(args) >= 2 and isinstance(args[0], Seq) and kw.get("axis", args[2] if len(args) > 2 else None) == 0:
                ii = args[1].items if isinstance(args[1], Seq) else [args[1]]
                ii = [plain(i)[1] if plain(i) else None for i in ii]
                if all(i is not None for i in ii):
                    return Seq([args[0].items[int(i)] for i in ii], "list")
            if last in ("array_equal", "allclose", "all", "any") and all(isinstance(a, Seq) and plain(a) for a in args):
                if last in ("all", "any"):
                    if len(args) == 1 and not kw:
                        return self.method(BoundM(args[0], last), [], {}, node, env)
                else:
                    strip = lambda v: key(Seq([asrat(x) for x in v.items])) if all(isnum(x) for x in v.items) else key(v)
                    return strip(args[0]) == strip(args[1])
            if last == "prod" and isinstance(args[0], Seq):
                r = 1
                for x in args[0].items:
                    r = self.binop(ast.Mult(), r, x, node)
                return r
            if last == "dot" and len(args) == 2 and isinstance(args[0], Seq) and isinstance(args[1], Seq):
                r = 0
                for x, y in zip(args[0].items, args[1].items):
                    r = self.binop(ast.Add(), r, self.binop(ast.Mult(), x, y, node), node)
                return r
            if last == "where" and len(args) == 3:
                c = args[0].text if isinstance(args[0], Cond) else key(args[0])
                return self.merge(c, args[1], args[2])
            if last == "arange":
                last, root, d, top = "range", "builtins", "builtins.range", "builtins"
        if top == "builtins":
            if last == "range":
                lo, hi = (0, args[0]) if len(args) == 1 else args[:2]
                if len(args) == 3 and not (isnum(args[2]) and asrat(args[2]).const() == 1):
                    cl = [asrat(a).const() if isnum(a) else None for a in args]
                    if all(c is not None for c in cl):
                        return Seq(list(range(*[int(c) for c in cl])))
                    return self.unknown("range step", node)
                if isnum(lo) and isnum(hi):
                    return Range(asrat(lo), asrat(hi))
                return self.unknown("range", node)
            if last in ("all", "any") and len(args) == 1 and isinstance(args[0], Seq) and all(isinstance(x, bool) for x in args[0].items):
                return all(args[0].items) if last == "all" else any(args[0].items)
            if last in ("set", "frozenset") and args and isinstance(args[0], Seq) and all(plain(x) is not None for x in args[0].items):
                return Seq(dedupe(args[0].items), "set")
            if last == "set" and not args:
                return Seq([], "set")
            if last in ("list", "tuple"):
                if not args:
                    return Seq([], last)
                if isinstance(args[0], Seq):
                    return Seq(args[0].items, last)
                if isinstance(args[0], DictV):
                    return Seq(list(args[0].d), last)
                return args[0]
            if last == "dict":
                if args and hasattr(args[0], "as_dict"):
                    args = [args[0].as_dict(), *args[1:]]
                if not args:
                    return DictV({k: v for k, v in kw.items() if k != "**"})
                if isinstance(args[0], DictV):
                    return DictV({**args[0].d, **kw})
                if isinstance(args[0], Seq) and all(isinstance(x, Seq) and len(x.items) == 2 for x in args[0].items):
                    return DictV({(x.items[0] if isinstance(x.items[0], (str, int)) else key(x.items[0])): x.items[1] for x in args[0].items})
            if last == "sum" and args:
                v = args[0]
                start = args[1] if len(args) > 1 else kw.get("start", 0)
                if isinstance(v, Arr):
                    return self.num(start) + alg.mksum(rat(0), v.count - 1, self.num(v.body), v.var)
                if isinstance(v, Seq):
                    r = start
                    for x in v.items:
                        r = self.binop(ast.Add(), r, x, node)
                    return r
            if last == "len" and args:
                if isinstance(args[0], (Seq,)) and not any(isinstance(x, Star) for x in args[0].items):
                    return len(args[0].items)
                if isinstance(args[0], DictV):
                    return len(args[0].d)
                if isinstance(args[0], Arr):
                    return args[0].count
                if isinstance(args[0], str):
                    return len(args[0])
            if last in ("float",) and args and isnum(args[0]):
                return args[0]
            if last == "int" and len(args) == 1 and isinstance(args[0], str) and args[0].strip().lstrip("+-").isdigit():
                return int(args[0])
            if last == "int" and args and isnum(args[0]):
                c = asrat(args[0]).const()
                return int(c) if c is not None else args[0]
            if last == "str" and args and isinstance(args[0], ModelObj) and isinstance(getattr(args[0], "text", None), str):
                return args[0].text
            if last == "str" and args:
                if isinstance(args[0], (str,)):
                    return args[0]
                if isinstance(args[0], int):
                    return str(args[0])
                if isinstance(args[0], Rat) and args[0].single_atom():
                    return self.tostr(args[0])
            if last == "abs" and args:
                return self.lift(lambda x: alg.fn("abs", x), args[0])
            if last == "pow" and len(args) == 2:
                return self.binop(ast.Pow(), args[0], args[1], node)
            if last == "bool" and len(args) == 1 and (args[0] is None or isinstance(args[0], (bool, int, str))):
                return bool(args[0])
            if last == "divmod" and len(args) == 2:
                return Seq([self.binop(op, args[0], args[1], node) for op in (ast.FloorDiv(), ast.Mod())], "tuple")
            if last == "zip":
                ls = [self.concrete(a) for a in args]
                if all(x is not None for x in ls):
                    return Seq([Seq(t, "tuple") for t in zip(*ls)])
                if all(isinstance(a, Arr) for a in args) and args and len({key(a.count) for a in args}) == 1 and all(isnum(a.body) for a in args):
                    v = fresh("n")
                    return Arr(v, args[0].count, Seq([alg.subst(self.num(a.body), {a.var: sym(v)}) for a in args], "tuple"))
            if last == "enumerate":
                c = self.concrete(args[0])
                st = args[1] if len(args) > 1 else kw.get("start", 0)
                if c is not None:
                    return Seq([Seq([i + st, x], "tuple") for i, x in enumerate(c)])
                if isinstance(args[0], Arr):
                    a = args[0]
                    return Arr(a.var, a.count, Seq([sym(a.var) + asrat(st), a.body], "tuple"))
            if last == "map" and len(args) > 2:
                ls = [self.concrete(a) for a in args[1:]]
                if all(x is not None for x in ls):
                    return Seq([self.apply(args[0], list(t), {}, node, env) for t in zip(*ls)])
            if last in ("max", "min", "sorted") and len(args) == 1:
                c = self.concrete(args[0])
                kf = kw.get("key")
                if c:
                    ks = [plain(x if kf is None else self.apply(kf, [x], {}, node, env)) for x in c]
                    if kf is None and any(k is None for k in ks) and all(isinstance(x, Seq) and x.items for x in c):
                        # tuples: the first entry decides if it is a constant and never equal
                        ks = [plain(x.items[0]) for x in c]
                        if len(set(ks)) != len(ks):
                            ks = [None]
                    if all(k is not None for k in ks) and len({type(k[1]) for k in ks}) == 1:
                        idx = sorted(range(len(c)), key=lambda j: ks[j][1], reverse=kw.get("reverse") is True)
                        if last == "sorted":
                            return Seq([c[j] for j in idx])
                        f = max if last == "max" else min
                        return c[f(range(len(c)), key=lambda j: ks[j][1])]
            if last in ("max", "min") and len(args) > 1 and all(isinstance(x, (int, float)) for x in args):
                return (max if last == "max" else min)(args)
            if last == "map" and len(args) == 2:
                c = self.concrete(args[1])
                if c is not None:
                    return Seq([self.apply(args[0], [x], {}, node, env) for x in c])
                if isinstance(args[1], Arr):
                    return Arr(args[1].var, args[1].count, self.apply(args[0], [args[1].body], {}, node, env))
            if last in ("reversed",) and isinstance(args[0], Seq):
                return Seq(args[0].items[::-1])
            if last == "isinstance" and len(args) == 2 and isinstance(args[0], (str, bool, int, float, Seq, DictV, type(None))):
                tn = []
                for x in (args[1].items if isinstance(args[1], Seq) else [args[1]]):
                    tn.append(x.dotted.split(".")[-1] if isinstance(x, Ext) else key(x))
                v = args[0]
                names = {"str"} if isinstance(v, str) else {"bool", "int"} if isinstance(v, bool) else {"int"} if isinstance(v, int) else \
                    {"float"} if isinstance(v, float) else {"dict"} if isinstance(v, DictV) else \
                    ({v.kind} if v.kind in ("list", "tuple", "set", "ndarray") else set()) if isinstance(v, Seq) else {"NoneType"}
                if names & set(tn):
                    return True
                known = {"str", "bool", "int", "float", "dict", "list", "tuple", "set", "frozenset", "ndarray", "DataFrame", "Series", "Basic", "Path", "datetime",
                         "NoneType", "callable", "Index", "generator"}
                if set(tn) <= known and names and not isinstance(v, Seq):
                    return False
                if set(tn) <= known and isinstance(v, Seq) and v.kind in ("list", "tuple", "set", "ndarray"):
                    return False
            if last == "isinstance" and len(args) == 2:
                t = f"isinstance({key(args[0])},{key(args[1])})"
                f = self.fact(t)
                if f is not None:
                    return f
                return Cond(t)
            if last == "hasattr":
                if isinstance(args[0], Obj) and isinstance(args[1], str):
                    if (args[0].path, args[1]) in env["$heap"]:
                        return True
                    if args[1] in getattr(self, "missing", ()):
                        return False
                t = f"hasattr({key(args[0])},{key(args[1])})"
                f = self.fact(t)
                return f if f is not None else Cond(t)
            if last == "getattr" and isinstance(args[1], str):
                if len(args) == 3 and isinstance(args[0], Obj):
                    f = self.fact(f"hasattr({key(args[0])},{key(args[1])})")
                    if f is False:
                        return args[2]
                v = self.getattr(args[0], args[1], env, node)
                return v
            if last == "setattr" and isinstance(args[0], Obj) and isinstance(args[1], str):
                env["$heap"][(args[0].path, args[1])] = args[2]
                return None
            if last == "super":
                fcls = env["$func"].cls
                o = env.get(env["$func"].params()[0]) if env["$func"].params() else None
                if isinstance(o, Obj) and fcls is not None:
                    return Super(o, fcls)
        if any(isinstance(a, Unknown) for a in args):
            return next(a for a in args if isinstance(a, Unknown))
        return alg.call("ext:" + d, [asrat(a) if isnum(a) else key(a) for a in args]
                        + [f"{k}={key(v)}" for k, v in sorted(kw.items())])


def sym_atom(a):
    return Rat({((a, 1),): F(1)})


def asrat_sym(hk):
    return sym(f"{hk[0]}.{hk[1]}")


def walk_scope(n):
    """nodes of a statement without nested function bodies"""
    yield n
    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
        return
    for c in ast.iter_child_nodes(n):
        yield from walk_scope(c)


def _load(t):
    n = ast.parse(ast.unparse(t), mode="eval").body
    ast.copy_location(n, t)
    return n


def _store(t):
    import copy
    n = copy.copy(t)
    n.ctx = ast.Store()
    return n


def _decontinue(body):
    """if c: continue; rest   ->   if c: pass else: rest"""
    for i, st in enumerate(body):
        if isinstance(st, ast.If) and len(st.body) >= 1 and isinstance(st.body[-1], ast.Continue) and not st.orelse:
            new = ast.If(test=st.test, body=st.body[:-1] or [ast.Pass()], orelse=_decontinue(body[i + 1:]) or [ast.Pass()])
            ast.copy_location(new, st)
            return body[:i] + [new]
    return body


def same_item(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same_item(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same_item(a[k], b[k]) for k in a)
    return isinstance(a, (Rat, str, int, float, bool)) and key(a) == key(b)


EXTERNAL_MARKS = ("ext:", "?<", "m:", "apply(", "setitem(", "comp(", "map(", "fstr(", "attr:", "new:", "item(")


def undecidable_atoms(r, allowed=()):
    """atoms outside interpreted + declared-opaque vocabulary"""
    bad = []
    for a in r.atoms():
        at = alg.ATOMS[a]
        if at.kind == "call" and not any(at.extra == x for x in allowed):
            if at.extra not in ("KroneckerDelta", "binomial", "legendre", "expn", "ite", "mod"):
                bad.append(a)
    return bad
