"""path-sensitive typestate engine (structured abstract interpretation over the syntax tree)

The engine propagates *sets of abstract states* along every path of a function, including the exceptional ones.
A client decides which calls are events, how they change the state and whether they may raise.  Loops are iterated
to a fixpoint, helper functions of the project that (transitively) contain events are inlined, branch conditions on
local names are remembered so that correlated branches do not produce infeasible paths.

outcome of a block:  dict with the state sets  n (falls through), e (raises), r (returns), b (break), c (continue)
"""
import ast

from .model import unparse

SAFE_ATTRS = {"startswith", "endswith", "split", "strip", "lstrip", "rstrip", "append", "extend", "is_set", "set", "clear", "empty", "qsize", "wait",
              "copy", "keys", "debug", "info", "warning", "error", "progress", "exception", "captureWarnings", "is_alive", "flush", "write",
              "release", "setLevel", "getLogger", "values"}
SAFE_NAMES = {"print", "len", "isinstance", "hasattr", "callable", "str", "dict", "list", "set", "tuple", "repeat", "defaultdict", "count", "partial",
              "range", "repr", "zip", "enumerate", "map", "super", "default_timer", "type", "bool", "id"}


class Frame:
    def __init__(self, func, alias=None, cls=None, parent=None):
        self.func, self.alias, self.cls, self.parent = func, dict(alias or {}), cls, parent
        self.depth = 0 if parent is None else parent.depth + 1

    def where(self, node):
        return f"{self.func.file}:{getattr(node, 'lineno', self.func.lineno)}"


class Ctx:
    __slots__ = ("exc", "ret", "brk", "cont")

    def __init__(self):
        self.exc, self.ret, self.brk, self.cont = set(), set(), set(), set()


class State:
    """facts about branch conditions + client state (both immutable)"""
    __slots__ = ("facts", "c", "_h")

    def __init__(self, c, facts=frozenset()):
        self.c, self.facts = c, facts
        self._h = hash((c, facts))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self.c == o.c and self.facts == o.facts

    def __repr__(self):
        return f"<{self.c} {sorted(self.facts)}>"


class Client:
    """default client: no events"""

    def call(self, eng, node, name, args, frame, c):
        """None: not an event; otherwise a list of (new client state, raises?)"""
        return None

    def assume(self, eng, test, truth, frame, c):
        """refine / veto a branch; returns the client state or None if infeasible"""
        return c

    def assign(self, eng, target, value, frame, c):
        return c

    def with_enter(self, eng, item, frame, c):
        return None

    def with_exit(self, eng, item, frame, c, exc):
        return c

    def unpack(self, eng, target, val, frame, c):
        for n in ast.walk(target):
            if isinstance(n, ast.Name):
                c = self.assign(eng, n, None, frame, c)
        return c

    def enter(self, eng, call, g, bound, alias, frame, c):
        """a helper is about to be inlined (bound: parameter -> argument expression)"""
        return c

    def loop_iter(self, eng, node, frame, c, begin):
        return c

    def loop_done(self, eng, node, frame, c):
        return c

    def handler(self, eng, node, frame, c):
        return c

    def catches(self, h, c):
        """does this handler catch the pending exception?  "yes" / "no" / "maybe" """
        if h.type is None or unparse(h.type).split(".")[-1] in ("Exception", "BaseException"):
            return "yes"
        return "maybe"

    def choose(self, eng, node, branch, frame, c):
        """a conditional expression evaluated to the value of ``branch``"""
        return c

    def comp_iter(self, eng, comp, gen, frame, c, begin):
        return c

    def comp_done(self, eng, comp, frame, c):
        return c

    def endstmt(self, c):
        return c

    def leave(self, eng, call, g, frame, c):
        """an inlined helper returned"""
        return c

    def load(self, eng, node, frame, c):
        return c

    def ret(self, eng, node, frame, c):
        return c

    def wants(self, func):
        """inline this project function?"""
        return False

    def safe(self, node, name, frame, c):
        return False


class Engine:
    MAX_STATES = 4000

    def __init__(self, P, client):
        self.P, self.client = P, client
        self.visited = set()
        self.overflow = False

    # ------------------------------------------------------------------ names
    def canon(self, e, fr):
        """canonical dotted text of an expression (aliases resolved), None if it is not a name/attribute chain"""
        if isinstance(e, ast.Name):
            return fr.alias.get(e.id, e.id if fr.depth == 0 else f"{e.id}@{fr.depth}")
        if isinstance(e, ast.Attribute):
            b = self.canon(e.value, fr)
            return None if b is None else b + "." + e.attr
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "super":
            return "super()"
        return None

    def resolve(self, node, fr):
        """project function a call refers to (Func, receiver canonical or None)"""
        f = node.func
        if isinstance(f, ast.Attribute):
            base = self.canon(f.value, fr)
            cls = None
            if base is not None:
                root = fr
                if root.alias.get("$self:" + base) is not None:
                    cls = root.alias["$self:" + base]
            if cls is None and isinstance(f.value, ast.Name):
                t = fr.alias.get("$type:" + f.value.id)
                cls = t
            if cls is None and isinstance(f.value, ast.Name):
                try:
                    r = self.P.resolve(fr.func.module, f.value.id)
                except Exception:
                    r = None
                if r is not None and r.__class__.__name__ == "Cls":
                    cls = r
            if cls is not None:
                m = self.P.find_method(cls, f.attr)
                if m is not None:
                    return m, base, cls
            return None
        if isinstance(f, ast.Name):
            for n in ast.walk(fr.func.node):
                if isinstance(n, (ast.FunctionDef,)) and n.name == f.id and n is not fr.func.node:
                    for g in self.P.all_functions():
                        if g.node is n:
                            return g, None, fr.cls
            try:
                r = self.P.resolve(fr.func.module, f.id)
            except Exception:
                r = None
            if r is not None and r.__class__.__name__ == "Func":
                return r, None, None
        return None

    def frame(self, func, cls=None, alias=None, parent=None):
        a = dict(alias or {})
        if cls is not None and func.params() and not func.is_static:
            p = func.params()[0]
            a.setdefault(p, "self" if parent is None else a.get(p, "self"))
            a["$self:" + a[p]] = cls
        # names that are nothing but another name for an attribute chain
        fr = Frame(func, a, cls, parent)
        counts = {}
        for n in ast.walk(func.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                counts[n.id] = counts.get(n.id, 0) + 1
        params = set(func.params())
        for n in ast.walk(func.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                t = n.targets[0].id
                if counts.get(t) == 1 and t not in params and isinstance(n.value, (ast.Attribute, ast.Name)):
                    c = self.canon(n.value, fr)
                    if c is not None and c.split(".")[0] in ("self", "cls") and self.stable_alias(func, t, n.value):
                        fr.alias[t] = c
                if counts.get(t) == 1 and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and cls is not None \
                        and n.value.func.id in ("cls", cls.name):
                    fr.alias.setdefault("$type:" + t, cls)
                    fr.alias[t] = "self"
                    fr.alias["$self:self"] = cls
        return fr

    def stable_alias(self, func, name, value):
        """the aliased attribute is not re-assigned in this function"""
        txt = unparse(value)
        for n in ast.walk(func.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and unparse(n) == txt:
                return False
        return True

    # ------------------------------------------------------------------ running
    def run(self, func, c, cls=None, alias=None, parent=None):
        """-> (set of client states at normal exits, set of client states at exceptional exits)"""
        fr = self.frame(func, cls, alias, parent)
        ctx = Ctx()
        self.visited.add(func.qual)
        S = self.block(func.node.body, {State(c)}, fr, ctx)
        return ({s.c for s in S | ctx.ret}, {s.c for s in ctx.exc})

    def block(self, stmts, S, fr, ctx):
        for st in stmts:
            if not S:
                break
            S = self.stmt(st, S, fr, ctx)
            if isinstance(st, (ast.Expr, ast.Assign, ast.AugAssign, ast.For, ast.While)):
                S = self.emit(S, self.client.endstmt)
            S = self.forget(S)
            if len(S) > self.MAX_STATES:
                self.overflow = True
                S = set(sorted(S, key=repr)[: self.MAX_STATES])
        return S

    @staticmethod
    def forget(S):
        """results of helper calls are only needed within the statement"""
        if not any(f[0][0] == "$" and f[0] != "$ret" for s in S for f in s.facts):
            return S
        return {State(s.c, frozenset(f for f in s.facts if f[0][0] != "$" or f[0] == "$ret")) for s in S}

    def emit(self, S, fn):
        return {State(c, s.facts) for s in S for c in [fn(s.c)] if c is not None}

    def kill(self, S, names):
        if not names:
            return S
        out = set()
        for s in S:
            f = frozenset(x for x in s.facts if not (x[2] & names))
            out.add(State(s.c, f) if f != s.facts else s)
        return out

    # ------------------------------------------------------------------ statements
    def stmt(self, st, S, fr, ctx):
        cl = self.client
        if isinstance(st, ast.Expr):
            return self.expr(st.value, S, fr, ctx)
        if isinstance(st, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            val = st.value
            targets = st.targets if isinstance(st, ast.Assign) else [st.target]
            if isinstance(st, ast.Assign) and len(targets) == 1 and isinstance(targets[0], ast.Name) and self.is_test(val):
                T, F = self.cond(val, S, fr, ctx)
                out = set()
                nm = targets[0].id
                for S2, truth in ((T, True), (F, False)):
                    S2 = self.store(targets[0], val, S2, fr, ctx)
                    new = {(nm, truth, frozenset([nm]))} | (set() if isinstance(val, ast.BoolOp) else {(f"{nm}=", truth, frozenset([nm]))})
                    out |= {State(s.c, s.facts | new) for s in S2}
                return out
            if val is not None:
                S = self.expr(val, S, fr, ctx)
            for t in targets:
                S = self.store(t, val, S, fr, ctx, aug=isinstance(st, ast.AugAssign))
            return S
        if isinstance(st, ast.If):
            T, F = self.cond(st.test, S, fr, ctx)
            a = self.block(st.body, T, fr, ctx)
            b = self.block(st.orelse, F, fr, ctx)
            return a | b
        if isinstance(st, ast.While):
            return self.loop(st, S, fr, ctx, None)
        if isinstance(st, (ast.For, ast.AsyncFor)):
            S = self.expr(st.iter, S, fr, ctx)
            return self.loop(st, S, fr, ctx, st)
        if isinstance(st, ast.Try):
            return self.try_(st, S, fr, ctx)
        if isinstance(st, (ast.With, ast.AsyncWith)):
            return self.with_(st, 0, S, fr, ctx)
        if isinstance(st, ast.Return):
            if st.value is not None and fr.depth and (self.is_test(st.value) or isinstance(st.value, ast.Constant) or self.inlines(st.value, fr)):
                T, F = self.cond(st.value, S, fr, ctx)
                for S2, truth in ((T, True), (F, False)):
                    S2 = self.emit(S2, lambda c: cl.ret(self, st, fr, c))
                    ctx.ret |= {State(s.c, s.facts | {("$ret", truth, frozenset())}) for s in S2}
                return set()
            if st.value is not None:
                S = self.expr(st.value, S, fr, ctx)
            S = self.emit(S, lambda c: cl.ret(self, st, fr, c))
            ctx.ret |= S
            return set()
        if isinstance(st, ast.Raise):
            if st.exc is not None:
                S = self.expr(st.exc, S, fr, ctx)
            ctx.exc |= S
            return set()
        if isinstance(st, ast.Assert):
            T, F = self.cond(st.test, S, fr, ctx)
            ctx.exc |= F
            return T
        if isinstance(st, ast.Break):
            ctx.brk |= S
            return set()
        if isinstance(st, ast.Continue):
            ctx.cont |= S
            return set()
        if isinstance(st, ast.Delete):
            for t in st.targets:
                if isinstance(t, ast.Subscript):
                    S = self.expr(t.value, S, fr, ctx)
                    S = self.expr(t.slice, S, fr, ctx)
                    ctx.exc |= S
                if isinstance(t, ast.Name):
                    S = self.kill(S, {t.id})
            return S
        return S

    @staticmethod
    def is_test(v):
        if isinstance(v, ast.BoolOp):
            return True
        if isinstance(v, ast.UnaryOp):
            return isinstance(v.op, ast.Not)
        return isinstance(v, ast.Compare) or isinstance(v, ast.Call) and isinstance(v.func, (ast.Attribute, ast.Name)) \
            and (getattr(v.func, "attr", None) in ("is_set", "empty", "startswith", "endswith", "exists", "is_alive")
                 or getattr(v.func, "id", None) in ("isinstance", "callable", "bool"))

    def store(self, t, val, S, fr, ctx, aug=False):
        if isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(val, (ast.Tuple, ast.List)) and len(val.elts) == len(t.elts):
                for x, v in zip(t.elts, val.elts):
                    S = self.store(x, v, S, fr, ctx)
                return S
            S = self.kill(S, {n.id for n in ast.walk(t) if isinstance(n, ast.Name)})
            return self.emit(S, lambda c: self.client.unpack(self, t, val, fr, c))
        if isinstance(t, ast.Starred):
            return self.store(t.value, None, S, fr, ctx)
        if isinstance(t, ast.Name):
            pos = set()
            if aug and isinstance(val, ast.Constant) and isinstance(val.value, int) and val.value > 0:
                pos = {s for s in S if self.sign(s, t.id) is not None}
            if aug or pos:
                S = {State(s.c, frozenset(f for f in s.facts if t.id not in f[2]) | ({(f"{t.id}+", True, frozenset([t.id]))} if s in pos else frozenset()))
                     for s in S}
            else:
                S = self.kill(S, {t.id})
            if isinstance(val, ast.Constant) and not aug:
                S = {State(s.c, s.facts | {(f"{t.id} is None", val.value is None, frozenset([t.id])),
                                           (f"{t.id}=", val.value, frozenset([t.id]))}) for s in S}
            elif isinstance(val, ast.Call) and any(f[0] == f"$call{id(val)}" for s in S for f in s.facts):
                out = set()
                for s in S:
                    k = self.knows(s, f"$call{id(val)}")
                    out.add(s if k is None else State(s.c, s.facts | {(t.id, k, frozenset([t.id]))}))
                S = out
            elif isinstance(val, (ast.Call, ast.List, ast.Dict, ast.Tuple, ast.Lambda)) and self.constructs(val):
                S = {State(s.c, s.facts | {(f"{t.id} is None", False, frozenset([t.id]))}) for s in S}
        elif isinstance(t, ast.Subscript):
            S = self.expr(t.value, S, fr, ctx)
            S = self.expr(t.slice, S, fr, ctx)
        elif isinstance(t, ast.Attribute):
            S = self.expr(t.value, S, fr, ctx)
        return self.emit(S, lambda c: self.client.assign(self, t, val, fr, c))

    def sign(self, s, name):
        """0 / "+" / None (unknown) for a counter"""
        for f in s.facts:
            if f[0] == f"{name}=" and isinstance(f[1], int) and not isinstance(f[1], bool) and f[1] >= 0:
                return 0 if f[1] == 0 else "+"
            if f[0] == f"{name}+":
                return "+"
        return None

    def const_truth(self, e, s):
        """truth of a test on local names that are known to hold a constant (or a positive counter)"""
        if isinstance(e, ast.Call):
            for f in s.facts:
                if f[0] == f"$call{id(e)}":
                    return f[1]
        if isinstance(e, ast.Name):
            for f in s.facts:
                if f[0] == f"{e.id}=":
                    return bool(f[1])
                if f[0] == f"{e.id}+":
                    return True
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.left, ast.Name) and isinstance(e.comparators[0], ast.Constant):
            r, op = e.comparators[0].value, e.ops[0]
            for f in s.facts:
                if f[0] == f"{e.left.id}=":
                    v = f[1]
                    try:
                        return {ast.Is: lambda: v is r, ast.IsNot: lambda: v is not r, ast.Eq: lambda: v == r, ast.NotEq: lambda: v != r, ast.Gt: lambda: v > r,
                                ast.GtE: lambda: v >= r, ast.Lt: lambda: v < r, ast.LtE: lambda: v <= r}[type(op)]()
                    except (KeyError, TypeError):
                        return None
                if f[0] == f"{e.left.id}+" and isinstance(r, int):
                    if isinstance(op, ast.Gt) and r <= 0 or isinstance(op, ast.GtE) and r <= 1 or isinstance(op, ast.NotEq) and r <= 0:
                        return True
                    if isinstance(op, ast.Eq) and r <= 0 or isinstance(op, ast.LtE) and r <= 0 or isinstance(op, ast.Lt) and r <= 1:
                        return False
                    if isinstance(op, ast.IsNot) and r is None:
                        return True
        return None

    @staticmethod
    def constructs(v):
        if not isinstance(v, ast.Call):
            return True
        f = v.func
        n = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
        return n[:1].isupper()

    def loop(self, st, S, fr, ctx, fornode):
        cl = self.client
        head, out, todo = set(), set(), set(S)
        brk = set()
        names = set()
        if fornode is not None:
            names = {n.id for n in ast.walk(fornode.target) if isinstance(n, ast.Name)}
        while todo:
            head |= todo
            if len(head) > self.MAX_STATES:
                self.overflow = True
                break
            if fornode is None:
                T, F = self.cond(st.test, todo, fr, ctx)
                out |= F
            else:
                out |= self.emit(todo, lambda c: cl.loop_done(self, st, fr, c))
                T = self.kill(todo, names)
                T = self.emit(T, lambda c: cl.loop_iter(self, st, fr, c, True))
            inner = Ctx()
            inner.exc, inner.ret = ctx.exc, ctx.ret
            E = self.block(st.body, T, fr, inner) | inner.cont
            if fornode is not None:
                E = self.emit(E, lambda c: cl.loop_iter(self, st, fr, c, False))
            brk |= inner.brk
            todo = E - head
        out = self.block(st.orelse, out, fr, ctx) if st.orelse else out
        return out | brk

    def try_(self, st, S, fr, ctx):
        inner = Ctx()
        fin = bool(st.finalbody)
        if not fin:
            inner.ret, inner.brk, inner.cont = ctx.ret, ctx.brk, ctx.cont
        E = self.block(st.body, S, fr, inner)
        hctx = Ctx()
        if not fin:
            hctx.exc, hctx.ret, hctx.brk, hctx.cont = ctx.exc, ctx.ret, ctx.brk, ctx.cont
        E = self.block(st.orelse, E, fr, hctx) if st.orelse else E
        pending = set(inner.exc)
        for h in st.handlers:
            how = {s: self.client.catches(h, s.c) for s in pending}
            H = self.emit({s for s in pending if how[s] != "no"}, lambda c: self.client.handler(self, h, fr, c))
            if h.name:
                H = self.kill(H, {h.name})
            E |= self.block(h.body, H, fr, hctx)
            pending = {s for s in pending if how[s] != "yes"}
        hctx.exc |= pending
        if not fin:
            return E
        # finally: run for every way of leaving
        rest = {"n": E, "e": hctx.exc, "r": hctx.ret | inner.ret, "b": hctx.brk | inner.brk, "c": hctx.cont | inner.cont}
        out = set()
        for k, T in rest.items():
            if not T:
                continue
            R = self.block(st.finalbody, set(T), fr, ctx)
            if k == "n":
                out |= R
            elif k == "e":
                ctx.exc |= R
            elif k == "r":
                ctx.ret |= R
            elif k == "b":
                ctx.brk |= R
            else:
                ctx.cont |= R
        return out

    def with_(self, st, i, S, fr, ctx):
        if i == len(st.items):
            return self.block(st.body, S, fr, ctx)
        it = st.items[i]
        S = self.expr(it.context_expr, S, fr, ctx, with_item=True)
        S = self.emit(S, lambda c: self._enter(it, fr, c))
        if it.optional_vars is not None:
            S = self.store(it.optional_vars, None, S, fr, ctx)
        inner = Ctx()
        E = self.with_(st, i + 1, S, fr, inner)
        x = lambda T, exc: self.emit(T, lambda c: self.client.with_exit(self, it, fr, c, exc))
        ctx.exc |= x(inner.exc, True)
        ctx.ret |= x(inner.ret, False)
        ctx.brk |= x(inner.brk, False)
        ctx.cont |= x(inner.cont, False)
        return x(E, False)

    def _enter(self, it, fr, c):
        r = self.client.with_enter(self, it, fr, c)
        return c if r is None else r

    # ------------------------------------------------------------------ conditions
    def cond(self, e, S, fr, ctx):
        """-> (states in which e is true, states in which e is false)"""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            T, F = self.cond(e.operand, S, fr, ctx)
            return F, T
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            cur, done = S, set()
            for v in e.values:
                T, F = self.cond(v, cur, fr, ctx)
                cur, d = (T, F) if isand else (F, T)
                done |= d
            return (cur, done) if isand else (done, cur)
        if isinstance(e, ast.Constant):
            return (S, set()) if e.value else (set(), S)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "bool" and len(e.args) == 1:
            return self.cond(e.args[0], S, fr, ctx)
        if isinstance(e, ast.NamedExpr):
            S = self.expr(e, S, fr, ctx)
            e = e.target
        else:
            S = self.expr(e, S, fr, ctx)
        key, neg, names = self.fact(e, fr)
        T, F = set(), set()
        for s in S:
            for truth, out in ((True, T), (False, F)):
                facts = s.facts
                k = self.const_truth(e, s)
                if k is not None and k != truth:
                    continue
                if key is not None:
                    want = truth ^ neg
                    known = next((f[1] for f in facts if f[0] == key), None)
                    if known is not None and known != want:
                        continue
                    if known is None:
                        facts = facts | {(key, want, names)}
                c = self.client.assume(self, e, truth, fr, s.c)
                if c is not None:
                    out.add(State(c, facts))
        return T, F

    def fact(self, e, fr):
        """(key, negated, names): a condition whose value only depends on local names that are not changed in between"""
        neg = False
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            op, r = e.ops[0], e.comparators[0]
            if isinstance(op, (ast.IsNot, ast.NotEq, ast.NotIn)):
                neg = True
                op = {ast.IsNot: ast.Is, ast.NotEq: ast.Eq, ast.NotIn: ast.In}[type(op)]()
            txt = f"{unparse(e.left)} {'is' if isinstance(op, ast.Is) else op.__class__.__name__} {unparse(r)}"
            if isinstance(r, ast.Constant) and r.value is None and isinstance(op, (ast.Is, ast.Eq)):
                txt = f"{unparse(e.left)} is None"
            parts = [e.left, r]
        elif isinstance(e, ast.Name):
            txt, parts = e.id, [e]
        elif isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("isinstance", "callable") and not e.keywords:
            txt, parts = unparse(e), e.args
        else:
            return None, False, None
        names = set()
        for p in parts:
            for n in ast.walk(p):
                if isinstance(n, (ast.Call, ast.Subscript, ast.Attribute)) and not isinstance(e, ast.Call):
                    return None, False, None
                if isinstance(n, ast.Name):
                    names.add(n.id)
        return txt, neg, frozenset(names)

    def knows(self, s, key):
        return next((f[1] for f in s.facts if f[0] == key), None)

    # ------------------------------------------------------------------ expressions
    def expr(self, e, S, fr, ctx, with_item=False):
        if e is None or not S or isinstance(e, (ast.Constant, ast.Lambda)):
            return S
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load):
                return self.emit(S, lambda c: self.client.load(self, e, fr, c))
            return S
        if isinstance(e, ast.BoolOp) or isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            T, F = self.cond(e, S, fr, ctx)
            return T | F
        if isinstance(e, ast.IfExp):
            T, F = self.cond(e.test, S, fr, ctx)
            A = self.emit(self.expr(e.body, T, fr, ctx), lambda c: self.client.choose(self, e, e.body, fr, c))
            B = self.emit(self.expr(e.orelse, F, fr, ctx), lambda c: self.client.choose(self, e, e.orelse, fr, c))
            return A | B
        if isinstance(e, ast.NamedExpr):
            S = self.expr(e.value, S, fr, ctx)
            return self.store(e.target, e.value, S, fr, ctx)
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            S = self.expr(e.generators[0].iter, S, fr, ctx)
            head, todo = set(), set(S)
            while todo and len(head) < self.MAX_STATES:
                head |= todo
                T = todo
                for i, g in enumerate(e.generators):
                    if i:
                        T = self.expr(g.iter, T, fr, ctx)
                    T = self.kill(T, {n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)})
                    T = self.emit(T, lambda c: self.client.comp_iter(self, e, g, fr, c, True))
                skipped = set()
                for g in e.generators:
                    for cnd in g.ifs:
                        T, F = self.cond(cnd, T, fr, ctx)
                        skipped |= F
                for p in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                    T = self.expr(p, T, fr, ctx)
                T = self.emit(T, lambda c: self.client.comp_iter(self, e, None, fr, c, True))
                T |= skipped
                T = self.emit(T, lambda c: self.client.comp_iter(self, e, e.generators[0], fr, c, False))
                todo = T - head
            return self.emit(head, lambda c: self.client.comp_done(self, e, fr, c))
        if isinstance(e, (ast.Yield, ast.YieldFrom, ast.Await)):
            if e.value is not None:
                S = self.expr(e.value, S, fr, ctx)
            return self.event(e, "$yield", S, fr, ctx)
        if isinstance(e, ast.Call):
            return self.call(e, S, fr, ctx, with_item)
        if isinstance(e, ast.Subscript):
            S = self.expr(e.value, S, fr, ctx)
            S = self.expr(e.slice, S, fr, ctx)
            if isinstance(e.ctx, ast.Load) and not isinstance(e.slice, ast.Slice):
                ctx.exc |= {s for s in S if not self.client.safe(e, None, fr, s)}
            return S
        for ch in ast.iter_child_nodes(e):
            if isinstance(ch, ast.expr):
                S = self.expr(ch, S, fr, ctx)
            elif isinstance(ch, (ast.keyword, ast.FormattedValue)):
                S = self.expr(ch.value, S, fr, ctx)
        return S

    def event(self, node, name, S, fr, ctx):
        """apply the client's event; unknown calls may raise"""
        out = set()
        for s in S:
            r = self.client.call(self, node, name, getattr(node, "args", []), fr, s.c)
            if r is None:
                if not self.is_safe(node, name, fr, s):
                    ctx.exc.add(s)
                out.add(s)
                continue
            for c, raises in r:
                (ctx.exc if raises else out).add(State(c, s.facts))
        return out

    def is_safe(self, node, name, fr, s):
        if name == "$yield":
            return False
        if self.client.safe(node, name, fr, s):
            return True
        if not isinstance(node, ast.Call):
            return False
        f = node.func
        if isinstance(f, ast.Attribute):
            if f.attr == "items" and isinstance(f.value, ast.Name):
                return any(k[0].startswith(f"isinstance({f.value.id}, dict") and k[1] for k in s.facts)
            return f.attr in SAFE_ATTRS
        return isinstance(f, ast.Name) and f.id in SAFE_NAMES

    def call(self, e, S, fr, ctx, with_item=False):
        if isinstance(e.func, ast.Attribute):
            S = self.expr(e.func.value, S, fr, ctx)
        elif not isinstance(e.func, ast.Name):
            S = self.expr(e.func, S, fr, ctx)
        for a in e.args:
            S = self.expr(a.value if isinstance(a, ast.Starred) else a, S, fr, ctx)
        for k in e.keywords:
            S = self.expr(k.value, S, fr, ctx)
        name = self.canon(e.func, fr) or unparse(e.func)
        r = self.resolve(e, fr)
        if r is not None and fr.depth < 8 and self.client.wants(r[0]) and r[0].node is not fr.func.node:
            return self.inline(e, r, S, fr, ctx)
        return self.event(e, name, S, fr, ctx)

    def inlines(self, e, fr):
        if not isinstance(e, ast.Call):
            return False
        r = self.resolve(e, fr)
        return r is not None and fr.depth < 8 and self.client.wants(r[0]) and r[0].node is not fr.func.node

    def inline(self, e, r, S, fr, ctx):
        g, base, cls = r
        alias = {}
        ps = g.params()
        args = list(e.args)
        static = g.is_static
        if isinstance(e.func, ast.Attribute) and not static and ps:
            alias[ps[0]] = base or "self"
            ps = ps[1:]
        for p, a in zip(ps, args):
            if isinstance(a, ast.Starred):
                break
            c = self.canon(a, fr)
            if c is not None:
                alias[p] = c
        for k in e.keywords:
            c = self.canon(k.value, fr)
            if k.arg and c is not None:
                alias[k.arg] = c
        if cls is not None and g.params() and not static:
            alias["$self:" + alias.get(g.params()[0], "self")] = cls
        for k, v in fr.alias.items():
            if k.startswith("$self:"):
                alias.setdefault(k, v)
        out = set()
        by = {}
        bound = dict(zip(ps, args)) if not any(isinstance(a, ast.Starred) for a in args) else {}
        bound.update({k.arg: k.value for k in e.keywords if k.arg})
        for p, d in g.defaults().items():
            if p not in bound and not any(k.arg is None for k in e.keywords) and len(bound) >= len(args):
                bound[p] = d
        tests = {p: a for p, a in bound.items() if self.is_test(a) and not isinstance(a, ast.BoolOp)}
        split = [(s, {}) for s in S]
        for p, a in tests.items():
            nxt = []
            for s, m in split:
                T, F = self.cond(a, {s}, fr, Ctx())
                nxt += [(x, {**m, p: True}) for x in T] + [(x, {**m, p: False}) for x in F]
            split = nxt
        for s, m in split:
            facts = {(f"{p}=", v, frozenset([p])) for p, v in m.items()} | {(f"{p} is None", False, frozenset([p])) for p in m}
            for p, a in bound.items():
                if isinstance(a, ast.Constant):
                    facts |= {(f"{p} is None", a.value is None, frozenset([p])), (f"{p}=", a.value, frozenset([p]))}
                elif isinstance(a, ast.Name):
                    for f in s.facts:
                        if f[0] == f"{a.id}=":
                            facts |= {(f"{p} is None", f[1] is None, frozenset([p])), (f"{p}=", f[1], frozenset([p]))}
                        elif f[0] in (f"{a.id} is None", f"{a.id}+") or f[0] == a.id:
                            facts.add((f[0].replace(a.id, p, 1), f[1], frozenset([p])))
            c = self.client.enter(self, e, g, bound, alias, fr, s.c)
            by.setdefault((c, frozenset(facts)), set()).add(s)
        self.client.on_inline(self, e, g, fr) if hasattr(self.client, "on_inline") else None
        for (c, facts), ss in by.items():
            n, x = self.run_in(g, c, cls, alias, fr, facts)
            n = {(self.client.leave(self, e, g, fr, k), t) for k, t in n}
            x = {self.client.leave(self, e, g, fr, k) for k in x}
            for s in ss:
                out |= {State(k, s.facts if t is None else s.facts | {(f"$call{id(e)}", t, frozenset())}) for k, t in n}
                ctx.exc |= {State(k, s.facts) for k in x}
        return out

    def run_in(self, g, c, cls, alias, parent, facts=frozenset()):
        fr = self.frame(g, cls, alias, parent)
        ctx = Ctx()
        self.visited.add(g.qual)
        S = self.block(g.node.body, {State(c, facts)}, fr, ctx)
        return ({(s.c, False) for s in S} | {(s.c, self.knows(s, "$ret")) for s in ctx.ret}, {s.c for s in ctx.exc})


def contains(P, pred):
    """project functions that transitively contain a node satisfying pred (name based, over-approximate)"""
    funcs = P.all_functions()
    direct = {f.qual: any(pred(n) for n in ast.walk(f.node)) for f in funcs}
    calls = {f.qual: {(n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", None))
                      for n in ast.walk(f.node) if isinstance(n, ast.Call)} for f in funcs}
    byname = {}
    for f in funcs:
        byname.setdefault(f.name, []).append(f.qual)
    out = {q for q, v in direct.items() if v}
    changed = True
    while changed:
        changed = False
        for f in funcs:
            if f.qual in out:
                continue
            if any(q in out for n in calls[f.qual] for q in byname.get(n, [])):
                out.add(f.qual)
                changed = True
    return out
