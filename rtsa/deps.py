"""transitive read-sets: which attributes of `self` a member's value is computed from"""
import ast


class Reads:
    """closure of attribute reads of a class' members, context sensitive in constant string parameters"""

    def __init__(self, P, cls):
        self.P, self.cls = P, cls
        self.memo = {}
        self.functions = set()

    def member(self, name):
        f = self.P.find_prop(self.cls, name) or self.P.find_method(self.cls, name)
        return f

    def of(self, func, selfname=None, consts=()):
        """(raw attribute chains, members) read, directly or through other members"""
        if selfname is None:
            selfname = func.params()[0] if func.params() and not func.is_static else None
        k = (func.qual, func.node.lineno, selfname, tuple(sorted(consts)))
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = (set(), set())
        self.functions.add(func.qual)
        raw, mem = set(), set()
        consts = {a: set(b) for a, b in consts}
        if selfname is None:
            return self.memo[k]
        selves = {selfname}
        grew = True
        while grew:
            grew = False
            for n in ast.walk(func.node):
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id in selves:
                    for t in n.targets:
                        if isinstance(t, ast.Name) and t.id not in selves:
                            selves.add(t.id)
                            grew = True
                # names that range over literal strings
                pairs = []
                if isinstance(n, (ast.For, ast.comprehension)):
                    pairs = [(n.target, n.iter)]
                elif isinstance(n, ast.Assign):
                    pairs = [(t, n.value) for t in n.targets]
                for t, it in pairs:
                    if isinstance(t, ast.Name):
                        vals = {c.value for c in ast.walk(it) if isinstance(c, ast.Constant) and isinstance(c.value, str)}
                        if vals - consts.get(t.id, set()):
                            consts[t.id] = consts.get(t.id, set()) | vals
                            grew = True

        def strs(e):
            if isinstance(e, ast.Constant) and isinstance(e.value, str):
                return {e.value}
            if isinstance(e, ast.Name):
                return consts.get(e.id)
            if isinstance(e, ast.JoinedStr):
                out = {""}
                for v in e.values:
                    p = {v.value} if isinstance(v, ast.Constant) else strs(v.value)
                    if p is None:
                        return None
                    out = {a + b for a in out for b in p}
                return out
            if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
                a, b = strs(e.left), strs(e.right)
                return None if a is None or b is None else {x + y for x in a for y in b}
            return None

        def isself(e):
            return isinstance(e, ast.Name) and e.id in selves

        called = set()

        def use(name, ctx=()):
            f = self.member(name)
            if f is None:
                raw.add((name,))
                return
            mem.add(name)
            if f.is_static:
                return
            a, b = self.of(f, None, ctx)
            raw.update(a)
            mem.update(b)

        def bind(f, args, kws, skip):
            ps = f.params()[skip:]
            ctx = {}
            for p, a in list(zip(ps, args)) + [(k.arg, k.value) for k in kws if k.arg in ps]:
                s = strs(a)
                if s:
                    ctx[p] = tuple(sorted(s))
            return tuple(sorted(ctx.items()))

        for n in ast.walk(func.node):
            if isinstance(n, ast.Call):
                g = n.func
                if isinstance(g, ast.Attribute) and isself(g.value):
                    f = self.P.find_method(self.cls, g.attr)
                    if f is not None and not f.is_static:
                        called.add(id(g))
                        use(g.attr, bind(f, n.args, n.keywords, 1))
                if isinstance(g, ast.Name) and g.id == "getattr" and n.args and isself(n.args[0]):
                    s = strs(n.args[1])
                    for x in (s or {"?"}):
                        use(x)
                if isinstance(g, ast.Name) and g.id == "vars" and n.args and isself(n.args[0]):
                    raw.add(("__dict__",))
                for i, a in enumerate(n.args):
                    if isself(a) and isinstance(g, ast.Name):
                        r = self.P.resolve(func.module, g.id)
                        node = getattr(r, "node", None)
                        if isinstance(node, (ast.FunctionDef, ast.Lambda)) and i < len(r.params()):
                            x, y = self.of(r, r.params()[i])
                            raw.update(x)
                            mem.update(y)
        for n in ast.walk(func.node):
            if isinstance(n, ast.Attribute) and isself(n.value) and isinstance(n.ctx, ast.Load) and id(n) not in called:
                use(n.attr)
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Attribute) and isself(n.value.value) and isinstance(n.ctx, ast.Load):
                raw.add((n.value.attr, n.attr))
        self.memo[k] = (raw, mem)
        # members in a cycle have seen a partial result: iterate to the fixpoint
        return self.memo[k]

    def fix(self, func):
        last = None
        while True:
            self.memo = {}
            r = self.of(func)
            if last == r:
                return r
            last = r
            return r


def stores(func, selfname=None):
    """attribute names of self stored by a method (incl. setattr with a constant name)"""
    selfname = selfname or (func.params()[0] if func.params() else None)
    out = set()
    for n in ast.walk(func.node):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == selfname:
            out.add(n.attr)
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Attribute) and n.value.attr == "__dict__" \
                and isinstance(n.slice, ast.Constant):
            out.add(n.slice.value)
        if isinstance(n, ast.Call) and n.args and isinstance(n.func, (ast.Name, ast.Attribute)):
            nm = n.func.id if isinstance(n.func, ast.Name) else n.func.attr
            if nm in ("setattr", "__setattr__"):
                cs = [a.value for a in n.args[:2] if isinstance(a, ast.Constant) and isinstance(a.value, str)]
                out |= set(cs)
    return out
