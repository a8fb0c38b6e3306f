"""P16: everything that is only changed / opened for a while is put back / closed on every way out"""
import ast

from rtsa.model import AnalysisBroken, unparse
from rtsa.report import Report
from rtsa.typestate import Client, Engine

from .pipeline import CS, Roles, kwarg, last

OPENERS = {"open": "file", "HDFStore": "HDF container", "HDFaccessor": "HDF container", "Pool": "pool", "ThreadPool": "pool", "open_dataset": "dataset", "Dataset": "dataset",
           "scandir": None}
CLOSERS = {"file": {"close"}, "HDF container": {"close"}, "dataset": {"close"}, "pool": {"join"}}


def own(func):
    """nodes of a function without its nested functions"""
    todo = list(ast.iter_child_nodes(func))
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            todo += list(ast.iter_child_nodes(n))


def opener(n):
    if isinstance(n, ast.Call):
        k = last(n.func)
        if k == "open" and not isinstance(n.func, ast.Name) and not (isinstance(n.func, ast.Attribute) and unparse(n.func.value) in ("io", "gzip", "Path", "codecs")):
            return None
        return OPENERS.get(k)
    return None


class Handles(Roles):
    """typestate of opened handles: open -> (entered by with | closed | handed over)"""

    def __init__(self, P, rep, f):
        super().__init__(P, rep, "handle")
        self.f, self.sites = f, {}

    def wants(self, g):
        return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("close", "join") and isinstance(n.func.value, ast.Name)
                   and n.func.value.id in g.params() for n in own(g.node))

    def safe(self, node, name, fr, s):
        if isinstance(node, ast.Call) and last(node.func) in ("close", "join", "terminate", "isinstance", "release", "debug", "info", "progress", "error", "warning", "append",
                                                            "is_alive", "print", "Path", "str"):
            return True
        return False

    def call(self, eng, node, name, args, fr, c):
        if not isinstance(node, ast.Call):
            return None
        k = opener(node)
        if k is not None:
            site = (k, node.lineno, node.col_offset)
            self.sites[site] = node
            p = node._parent
            if isinstance(p, ast.withitem):
                return [(self.result(c, node, None), False), (c, True)]
            if isinstance(p, (ast.Return, ast.Yield)) or isinstance(p, ast.Call) and node in p.args + [x.value for x in p.keywords]:
                if isinstance(p, ast.Call) and last(p.func) in ("load", "loads", "read", "print", "str", "list"):
                    self.bad("anonymous", f"the {k} opened by {unparse(node)} is never closed", fr, node)
                return [(self.result(c, node, None), False), (c, True)]
            if isinstance(p, ast.Attribute):
                self.bad("anonymous", f"the {k} opened by {unparse(node)} is never closed", fr, node)
                return [(c, False), (c, True)]
            opened = frozenset((c["open"] or frozenset()) | {site})
            return [(self.result(c.put(open=opened), node, site), False), (c, True)]
        if isinstance(node.func, ast.Attribute):
            r = self.role(eng, node.func.value, fr, c)
            if r in self.sites and node.func.attr in CLOSERS[r[0]]:
                return [(self.closed(c, r), False)]
        # handing a handle over to somebody else (constructors, containers)
        for a in list(node.args) + [k.value for k in node.keywords]:
            r = self.role(eng, a, fr, c)
            if r in self.sites and (last(node.func) in ("append", "enter_context", "closing", "finalize", "register") or str(last(node.func))[:1].isupper()):
                return [(self.closed(c, r), False), (c, True)]
        return None

    def closed(self, c, site):
        return c.put(open=frozenset((c["open"] or frozenset()) - {site}) or None)

    def with_enter(self, eng, it, fr, c):
        r = self.role(eng, it.context_expr, fr, c)
        return self.closed(c, r) if r in self.sites else None

    def assign(self, eng, t, val, fr, c):
        r = self.role(eng, val, fr, c) if val is not None else None
        if r in self.sites and not isinstance(t, ast.Name):
            return self.closed(c, r)          # stored: the owner of the object closes it
        return super().assign(eng, t, val, fr, c)

    def ret(self, eng, node, fr, c):
        for n in ast.walk(node.value) if node.value is not None else ():
            r = self.role(eng, n, fr, c) if isinstance(n, (ast.Name, ast.Attribute, ast.Call)) else None
            if r in self.sites:
                c = self.closed(c, r)
        return super().ret(eng, node, fr, c)


class Locks(Client):
    def __init__(self, rep, f, inl=()):
        self.rep, self.f, self.n, self.reported = rep, f, 0, set()
        self.inl, self.problems = inl, []

    def wants(self, g):
        return g.qual in self.inl

    def safe(self, node, name, fr, s):
        return isinstance(node, ast.Call) and last(node.func) in ("release", "set", "clear", "is_set", "error", "debug", "progress", "warning", "info", "print")

    def call(self, eng, node, name, args, fr, c):
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr in ("acquire", "release"):
            lock = name.rsplit(".", 1)[0]
            self.n += 1
            held = c["held"] or frozenset()
            if node.func.attr == "acquire":
                if lock in held:
                    self.bad(f"{self.f.qual}:{lock}", "acquired although it is already held", node)
                return [(c.put(held=held | {lock}), False)]
            if lock not in held:
                self.bad(f"{self.f.qual}:{lock}", "released although it is not held", node)
            return [(c.put(held=(held - {lock}) or None), False)]
        return None

    def bad(self, key, why, node):
        if key not in self.reported:
            self.reported.add(key)
            self.problems.append((f"lock:{key}", f"the lock is {why}", f"{self.f.file}:{node.lineno}"))


class Restore(Roles):
    """an attribute that is overridden for a while has its initial value at every way out"""

    def __init__(self, P, rep, attrs, inl):
        super().__init__(P, rep, "restore")
        self.attrs, self.inl, self.changed = attrs, inl, set()

    def wants(self, g):
        return g.qual in self.inl

    def attr_role(self, eng, e, name, fr, c):
        return ("initial", name) if name in self.attrs else None

    def expr_role(self, eng, e, fr, c):
        if isinstance(e, ast.Call) and last(e.func) == "getattr" and len(e.args) >= 2 and isinstance(e.args[1], ast.Constant):
            n = f"{eng.canon(e.args[0], fr)}.{e.args[1].value}"
            return dict(c["roles"] or ()).get(n, ("initial", n)) if n in self.attrs else None
        if isinstance(e, (ast.Tuple, ast.List)):
            return ("tuple",) + tuple(self.role(eng, x, fr, c) for x in e.elts)
        return None

    def assign(self, eng, t, val, fr, c):
        if isinstance(t, ast.Attribute):
            n = eng.canon(t, fr)
            if n in self.attrs:
                r = (self.role(eng, val, fr, c) if val is not None else None) or ("other",)
                if r != ("initial", n):
                    self.changed.add(n)
                return self.setrole(c, n, None if r == ("initial", n) else r)
        return super().assign(eng, t, val, fr, c)

    def call(self, eng, node, name, args, fr, c):
        if isinstance(node, ast.Call) and last(node.func) == "setattr" and len(node.args) == 3 and isinstance(node.args[1], ast.Constant):
            n = f"{eng.canon(node.args[0], fr)}.{node.args[1].value}"
            if n in self.attrs:
                r = self.role(eng, node.args[2], fr, c) or ("other",)
                if r != ("initial", n):
                    self.changed.add(n)
                return [(self.setrole(c, n, None if r == ("initial", n) else r), False)]
        return None


class Listener(Roles):
    """the log listener is told to stop and joined, handlers are removed, warnings are no longer captured - on every way out"""
    objects = ("listener", "queue")

    def __init__(self, P, rep, inl, f):
        super().__init__(P, rep, "listener")
        self.inl, self.f, self.started = inl, f, 0

    def wants(self, g):
        return g.qual in self.inl

    def safe(self, node, name, fr, s):
        n = last(node.func) if isinstance(node, ast.Call) else None
        if n == "getattr":
            return len(node.args) == 3
        return n in ("captureWarnings", "close", "remove", "put_nowait", "put", "join", "is_alive", "groupby_unsorted", "get", "removeHandler", "hasattr", "callable",
                     "finalizer", "progress", "exception", "error", "warning", "info", "debug", "current_process", "getLogger")

    def call(self, eng, node, name, args, fr, c):
        if not isinstance(node, ast.Call):
            return None
        f = node.func
        n = last(f)
        if n == "Process":
            q = kwarg(node, "args", 2)
            return [(self.result(c, node, "listener"), False), (c, True)]
        if n == "Queue":
            return [(self.result(c, node, "queue"), False), (c, True)]
        if n == "_worker_configurer":
            return [(c.put(handlers=True, captured=True), False), (c.put(handlers=True, captured=True), True)]
        if n == "captureWarnings" and node.args and isinstance(node.args[0], ast.Constant):
            return [(c.put(captured=True if node.args[0].value else None), False)]
        if isinstance(f, ast.Attribute):
            r = self.role(eng, f.value, fr, c)
            if r == "listener" and f.attr == "start":
                self.started += 1
                return [(c.put(running=True), False), (c, True)]
            if r == "listener" and f.attr == "join":
                if c["running"] and not c["told"]:
                    self.bad("order", "the listener is joined before it is told to stop (deadlock)", fr, node)
                return [(c.put(running=None), False)]
            if r == "queue" and f.attr in ("put", "put_nowait") and node.args and isinstance(node.args[0], ast.Constant) and node.args[0].value is None:
                return [(c.put(told=True), False)]
        if isinstance(f, ast.Attribute) and (f.attr == "remove" and eng.canon(f.value, fr) in ("log.handlers", "log.handlers[:]") or f.attr == "removeHandler"):
            return [(c.put(handlers=None), False)]
        return None

    def assume(self, eng, test, truth, fr, c):
        if isinstance(test, ast.Call) and last(test.func) == "is_alive" and isinstance(test.func, ast.Attribute) \
                and self.role(eng, test.func.value, fr, c) == "listener" and not truth:
            return c.put(running=None)
        return super().assume(eng, test, truth, fr, c)

    def loop_done(self, eng, node, fr, c):
        if any(isinstance(n, ast.Call) and (last(n.func) == "removeHandler" or last(n.func) == "remove" and "log.handlers" in unparse(n.func)) for n in ast.walk(node)):
            return c.put(handlers=None)
        return c


class Bound(Client):
    """definite assignment of the names that cleanup code (except / finally) reads"""

    def __init__(self, rep, f, names, zone):
        self.rep, self.f, self.names, self.zone, self.n = rep, f, names, zone, 0
        self.seen = set()

    def assign(self, eng, t, val, fr, c):
        if isinstance(t, ast.Name) and t.id in self.names:
            return c.put(b=(c["b"] or frozenset()) | {t.id})
        return c

    def unpack(self, eng, target, val, fr, c):
        for n in ast.walk(target):
            if isinstance(n, ast.Name):
                c = self.assign(eng, n, None, fr, c)
        return c

    def loop_iter(self, eng, node, fr, c, begin):
        if isinstance(node, (ast.For, ast.AsyncFor)) and begin:
            return self.unpack(eng, node.target, None, fr, c)
        return c

    def handler(self, eng, h, fr, c):
        return c.put(b=(c["b"] or frozenset()) | {h.name}) if h.name else c

    def load(self, eng, node, fr, c):
        if node.id in self.names and id(node) in self.zone:
            self.n += 1
            if node.id not in (c["b"] or frozenset()) and node.id not in self.seen:
                self.seen.add(node.id)
                self.rep.bad(f"unbound:{self.f.qual}:{node.id}", f"cleanup code reads '{node.id}' which is not assigned on every way there "
                             "(hides the original error and skips the cleanup)", f"{self.f.file}:{node.lineno}")
        return c


RESTORED = [("rtprocess.RTprocess", "run_finaloutput", "autocontinue"), ("rtresults.HDFaccessor", "_numeric_ID", "set_ID")]


def p_resources(P, tier):
    rep = Report("P16", tier, "Typestate over every function of the package: handles opened outside a with-block, locks, temporarily overridden attributes, "
                 "the log listener and its handlers; every way out (including exceptions raised by any call) is followed.")
    nh = nb = 0
    for f in P.all_functions():
        nodes = list(own(f.node))
        if any(opener(n) for n in nodes):
            cl = Handles(P, rep, f)
            eng = Engine(P, cl)
            n, x = eng.run(f, CS(), cls=f.cls)
            rep.analysed.add(f.qual)
            nh += len(cl.sites)
            for c in n | x:
                for k, line, col in c["open"] or ():
                    rep.bad(f"handle:{f.qual}:{k}", f"a {k} opened here stays open on some way out of the function", f"{f.file}:{line}")
            for k, line, col in cl.sites:
                rep.ok(f"handle:{f.qual}:{k}", "closed / handed over on every way out", f"{f.file}:{line}")
            if eng.overflow:
                rep.undecided(f"handle:{f.qual}", "too many states", f.qual)
        trys = [n for n in nodes if isinstance(n, ast.Try)]
        if trys:
            zone = {id(m): m for t in trys for b in [t.finalbody] + [h.body for h in t.handlers if broad(h)] for st in b for m in ast.walk(st)
                    if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Load)}
            params = set(f.params()) | {a.arg for a in (f.node.args.vararg, f.node.args.kwarg) if a is not None} | {a.arg for a in f.node.args.kwonlyargs}
            local = {m.id for m in nodes if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store)} - params
            glob = {x for m in nodes if isinstance(m, (ast.Global, ast.Nonlocal)) for x in m.names}
            names = ({m.id for m in zone.values()} & local) - glob
            # names bound inside of the cleanup code's own comprehensions are not local variables
            comp = {t.id for m in nodes if isinstance(m, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)) for g in m.generators
                    for t in ast.walk(g.target) if isinstance(t, ast.Name)}
            names -= comp - {m.id for m in nodes if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store) and not incomp(m)}
            if names:
                cl = Bound(rep, f, names, set(zone))
                eng = Engine(P, cl)
                eng.run(f, CS(), cls=f.cls)
                rep.analysed.add(f.qual)
                nb += cl.n
                if not cl.seen:
                    rep.ok(f"unbound:{f.qual}", f"{sorted(names)} assigned on every way to the cleanup code", f"{f.file}:{f.qual}")
    rep.ok("handle:scan", f"{nh} opened handles, {nb} reads in cleanup code")
    nl = locks(P, rep)
    rep.ok("lock:scan", f"{nl} lock operations")
    owners(P, rep)
    for cname, fn, attr in RESTORED:
        C = P.cls(cname)
        f = P.find_method(C, fn)
        if f is None:
            raise AnalysisBroken(f"{cname}.{fn} vanished")
        inl = {g.qual for g in P.all_functions() if g.cls is not None and g.cls.node is C.node and g.node is not f.node
               and any(isinstance(n, ast.Attribute) and n.attr == attr and isinstance(n.ctx, ast.Store) or isinstance(n, ast.Constant) and n.value == attr
                       for n in ast.walk(g.node))}
        cl = Restore(P, rep, {f"self.{attr}"}, inl)
        eng = Engine(P, cl)
        n, x = eng.run(f, CS(), cls=C)
        rep.analysed |= eng.visited
        for c in n | x:
            r = dict(c["roles"] or ()).get(f"self.{attr}")
            rep.check(r is None, f"restore:{fn}:{attr}", f"self.{attr} has its initial value at every way out of {fn}", f"{f.file}:{f.qual}")
    # generic: whoever saves an attribute restores it on every path
    for f in P.all_functions():
        saved = saved_attrs(f)
        if not saved or any(f.name == fn for _, fn, _ in RESTORED):
            continue
        cl = Restore(P, rep, {f"self.{a}" for a in saved}, set())
        eng = Engine(P, cl)
        n, x = eng.run(f, CS(), cls=f.cls)
        rep.analysed.add(f.qual)
        for a in saved:
            badly = any(dict(c["roles"] or ()).get(f"self.{a}") is not None for c in n | x)
            rep.check(not badly, f"restore:{f.qual}:{a}", f"self.{a} is saved and overridden here and must be restored on every way out", f"{f.file}:{f.qual}")
    R = P.cls("rtprocess.RTprocess")
    for fn in ("run_processing", "run_finaloutput"):
        f = P.find_method(R, fn)
        if f is None:
            raise AnalysisBroken(f"RTprocess.{fn} vanished")
        inl = {g.qual for g in P.all_functions() if g.cls is not None and g.cls.node is R.node and g.name not in
               ("_processfunc", "setup", "_listener_process", "_worker_configurer", "_run_finalout", fn, "run_processing", "run_finaloutput", "_get_files", "_initializer")
               and any(isinstance(n, ast.Call) and last(n.func) in ("Process", "_worker_configurer", "captureWarnings", "put_nowait", "removeHandler", "join", "start")
                       or isinstance(n, ast.Attribute) and n.attr == "handlers" for n in ast.walk(g.node))}
        cl = Listener(P, rep, inl, f)
        eng = Engine(P, cl)
        n, x = eng.run(f, CS(), cls=R)
        rep.analysed |= eng.visited
        where = f"{f.file}:{f.qual}"
        for c in n | x:
            rep.check(not c["running"], f"listener:{fn}:running", "the started log listener is told to stop and joined on every way out", where)
            rep.check(not c["captured"], f"listener:{fn}:warnings", "warnings are not captured any more afterwards", where)
            if c["told"]:
                rep.check(not c["handlers"], f"listener:{fn}:handlers", "the queue-handlers are removed from the log afterwards", where)
        rep.check(cl.started > 0, f"listener:{fn}:start", "the listener is started", where)
        if eng.overflow:
            rep.undecided(f"listener:{fn}", "too many states", where)
    rep.assume("calls of the standard library that only close, join or log do not raise")
    rep.minimum = 20
    return rep


def locks(P, rep):
    """a function that acquires and releases on its own is judged alone, otherwise together with the functions that call it"""
    funcs = P.all_functions()
    todo = [f for f in funcs if any(isinstance(n, ast.Attribute) and n.attr in ("acquire", "release") for n in own(f.node))]
    used = {n.attr if isinstance(n, ast.Attribute) else n.id for f in funcs for n in own(f.node) if isinstance(n, (ast.Attribute, ast.Name))}
    inl, res, n = set(), {}, 0
    while todo:
        f = todo.pop(0)
        cl = Locks(rep, f, inl)
        eng = Engine(P, cl)
        a, x = eng.run(f, CS(), cls=f.cls)
        left = sorted({k for c in a | x for k in c["held"] or ()})
        res[f.qual] = (f, cl, left, set(eng.visited))
        if (left or cl.problems) and f.qual not in inl:
            callers = [g for g in funcs if g.node is not f.node and any(isinstance(m, ast.Call) and last(m.func) == f.name for m in own(g.node))]
            if callers:
                inl.add(f.qual)
                todo = callers + [g for g in todo if g not in callers]
    for q, (f, cl, left, seen) in res.items():
        if q in inl or (cl.problems or left) and f.name.startswith("_") and f.name not in used:
            continue          # judged together with its callers / never used
        rep.analysed |= seen
        n += cl.n
        for k in cl.problems:
            rep.bad(*k)
        rep.check(not left and not cl.problems, f"lock:{q}", f"every lock is released on every way out ({left})", f"{f.file}:{q}")
    return n


def broad(h):
    """handlers of one specific error are only entered from the few operations that can raise it: not decided here"""
    ts = [h.type] if not isinstance(h.type, ast.Tuple) else h.type.elts
    return h.type is None or any(last(t) in ("Exception", "BaseException", "KeyboardInterrupt", "SystemExit") for t in ts)


def incomp(n):
    p = n._parent
    while p is not None and not isinstance(p, ast.stmt):
        if isinstance(p, ast.comprehension):
            return True
        p = getattr(p, "_parent", None)
    return False


def saved_attrs(f):
    """attributes with  n = self.a; self.a = <x>; self.a = n"""
    out = set()
    names = {}
    for n in own(f.node):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Attribute) \
                and isinstance(n.value.value, ast.Name) and f.params() and n.value.value.id == f.params()[0]:
            names[n.targets[0].id] = n.value.attr
    stores = {}
    for n in own(f.node):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute):
            stores.setdefault(n.targets[0].attr, []).append(n.value)
    for v, a in names.items():
        vals = stores.get(a, [])
        if any(isinstance(x, ast.Name) and x.id == v for x in vals) and any(not (isinstance(x, ast.Name) and x.id == v) for x in vals):
            out.add(a)
    return out


def owners(P, rep):
    """an object that keeps an open handle can be closed and closes it at the end of a with-block"""
    for f in P.all_functions():
        if f.cls is None:
            continue
        for n in own(f.node):
            if isinstance(n, ast.Assign) and opener(n.value) and isinstance(n.targets[0], ast.Attribute):
                a = n.targets[0].attr
                for m in ("__exit__", "close"):
                    g = P.find_method(f.cls, m)
                    ok = g is not None and closes(P, f.cls, g, a)
                    rep.check(ok, f"owner:{f.cls.qual}:{a}:{m}", f"{m} must close self.{a}", f"{f.file}:{f.cls.qual}")


def closes(P, cls, g, a, depth=0):
    if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "close" and isinstance(n.func.value, ast.Attribute)
           and n.func.value.attr == a for n in ast.walk(g.node)):
        return True
    if depth > 3:
        return False
    for n in ast.walk(g.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name):
            h = P.find_method(cls, n.func.attr)
            if h is not None and h.node is not g.node and closes(P, cls, h, a, depth + 1):
                return True
    return False


CHECKS = {"P16": p_resources}
