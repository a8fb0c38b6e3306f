"""P14 / P16 / P17 / P18: typestate of the processing pipeline"""
import ast

from rtsa.model import AnalysisBroken, unparse
from rtsa.report import Report
from rtsa.typestate import Client, Engine, contains

EVENTS = ("should_stop", "_stop", "combiner_ready", "should_wait")


class CS:
    """immutable record of the abstract state of a client"""
    __slots__ = ("d", "_h")

    def __init__(self, **d):
        self.d = d
        self._h = hash(frozenset(d.items()))

    def __getitem__(self, k):
        return self.d.get(k)

    def put(self, **k):
        return CS(**{a: b for a, b in {**self.d, **k}.items() if b is not None})

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self.d == o.d

    def __repr__(self):
        return repr(sorted(self.d.items(), key=repr))


def last(e):
    return e.attr if isinstance(e, ast.Attribute) else getattr(e, "id", None)


def kwarg(node, name, pos=None):
    for k in node.keywords:
        if k.arg == name:
            return k.value
    if pos is not None and pos < len(node.args) and not any(isinstance(a, ast.Starred) for a in node.args[:pos + 1]):
        return node.args[pos]
    return None


class Roles(Client):
    """values are tracked by the role they play; a role set is attached to names and to the last evaluated call"""

    objects = ()          # roles of values that are never None

    def __init__(self, P, rep, label):
        self.P, self.rep, self.label = P, rep, label
        self.reported = set()

    def bad(self, key, detail, fr, node):
        k = f"{self.label}:{key}"
        if k not in self.reported:
            self.reported.add(k)
            self.rep.bad(k, detail, fr.where(node) + " " + fr.func.qual)

    # -- roles
    def role(self, eng, e, fr, c):
        if e is None:
            return None
        if isinstance(e, ast.Constant):
            return ("const", e.value)
        if isinstance(e, (ast.Name, ast.Attribute)):
            n = eng.canon(e, fr)
            r = dict(c["roles"] or ()).get(n)
            if r is not None:
                return r
            return self.attr_role(eng, e, n, fr, c)
        if c["last"] is not None and c["last"][0] == id(e):
            return c["last"][1]
        if isinstance(e, ast.NamedExpr):
            return self.role(eng, e.target, fr, c)
        r = self.expr_role(eng, e, fr, c)
        if r is None and isinstance(e, ast.Tuple) and not any(isinstance(x, ast.Starred) for x in e.elts):
            rs = tuple(self.role(eng, x, fr, c) for x in e.elts)
            if any(x is not None for x in rs):
                return ("tuple",) + rs
        return r

    def attr_role(self, eng, e, name, fr, c):
        return None

    def expr_role(self, eng, e, fr, c):
        return None

    def setrole(self, c, name, r):
        d = dict(c["roles"] or ())
        d.pop(name, None)
        if r is not None:
            d[name] = r
        return c.put(roles=frozenset(d.items()))

    def assign(self, eng, t, val, fr, c):
        if isinstance(t, ast.Name):
            r = self.role(eng, val, fr, c) if val is not None else None
            if isinstance(getattr(t, "_parent", None), ast.AugAssign):
                return self.aug(eng, t, val, fr, c)
            return self.setrole(c, eng.canon(t, fr), r).put(last=None)
        if isinstance(t, ast.Attribute):
            n = eng.canon(t, fr)
            if n is not None and not isinstance(getattr(t, "_parent", None), ast.AugAssign):
                return self.setrole(c, n, self.role(eng, val, fr, c) if val is not None else None)
        return c

    def aug(self, eng, t, val, fr, c):
        return self.setrole(c, eng.canon(t, fr), None)

    def bind(self, eng, target, r, fr, c):
        """bind loop / tuple targets to roles (r: one role or a tuple of roles)"""
        if isinstance(target, (ast.Tuple, ast.List)):
            rs = r if isinstance(r, tuple) and r and r[0] == "tuple" else ("tuple",) + (None,) * len(target.elts)
            for t, x in zip(target.elts, rs[1:] + (None,) * len(target.elts)):
                c = self.bind(eng, t.value if isinstance(t, ast.Starred) else t, x, fr, c)
            return c
        if isinstance(target, ast.Name):
            return self.setrole(c, eng.canon(target, fr), r)
        return c

    def endstmt(self, c):
        return c.put(last=None) if c["last"] is not None else c

    def choose(self, eng, node, branch, fr, c):
        return c.put(last=(id(node), self.role(eng, branch, fr, c)))

    def result(self, c, node, r):
        return c.put(last=(id(node), r))

    def ret(self, eng, node, fr, c):
        return c.put(retval=self.role(eng, node.value, fr, c) if node.value is not None else ("const", None))

    def unpack(self, eng, target, val, fr, c):
        r = self.role(eng, val, fr, c) if val is not None else None
        return self.bind(eng, target, r, fr, super().unpack(eng, target, val, fr, c))

    def enter(self, eng, call, g, bound, alias, fr, c):
        for p, a in bound.items():
            if p not in alias:
                r = self.role(eng, a, fr, c)
                if r is not None:
                    c = self.setrole(c, f"{p}@{fr.depth + 1}", r)
        return c

    def assume(self, eng, test, truth, fr, c):
        k = self.const_test(eng, test, fr, c)
        if k is not None and k != truth:
            return None
        return c

    def const_test(self, eng, test, fr, c):
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None:
            r = self.role(eng, test.left, fr, c)
            if isinstance(r, tuple) and r[0] == "const":
                return (r[1] is None) == isinstance(test.ops[0], (ast.Is, ast.Eq))
            if r is not None and r in self.objects:
                return not isinstance(test.ops[0], (ast.Is, ast.Eq))
        r = self.role(eng, test, fr, c) if isinstance(test, (ast.Name, ast.Attribute)) else None
        if isinstance(r, tuple) and r[0] == "const":
            return bool(r[1])
        return None

    def leave(self, eng, call, g, fr, c):
        d = [(k, v) for k, v in (c["roles"] or ()) if not k.split(".")[0].endswith(f"@{fr.depth + 1}")]
        return c.put(roles=frozenset(d), last=(id(call), c["retval"]), retval=None)


# --------------------------------------------------------------------------- P14
def setter_of(name, ev):
    """self.<ev>.<method>: method name"""
    if name and name.startswith("self.") and name.count(".") == 2 and name.split(".")[1] == ev:
        return name.split(".")[2]
    return None


class QueueClient(Roles):
    """common part of combiner and writer: one loop that takes items from a queue until it is told to stop"""

    def __init__(self, P, rep, label, queue, stopflag, inl):
        super().__init__(P, rep, label)
        self.queue, self.stopflag, self.inl = queue, stopflag, inl
        self.gets = self.exits = 0
        self.killed_exit = self.drained_exit = False

    def wants(self, g):
        return g.qual in self.inl

    def pending(self, c):
        return None

    def safe(self, node, name, fr, s):
        if isinstance(node, ast.Subscript):
            return True
        f = node.func
        if isinstance(f, ast.Attribute) and s is not None:
            r = self.role(self.eng, f.value, fr, s.c)
            if r in ("item", "cfgval") and f.attr in ("items", "keys", "values", "get"):
                return s.c["valid"] == "valid" if r == "item" else s.c["sub"] is True
        return True

    def take(self, c):
        return c

    def call(self, eng, node, name, args, fr, c):
        self.eng = eng
        m = setter_of(name, self.queue)
        if m in ("get", "get_nowait"):
            self.gets += 1
            why = self.pending(c)
            if why:
                self.bad("item", f"the next item is taken from the queue before {why}", fr, node)
            if m == "get":
                t, b = kwarg(node, "timeout", 1), kwarg(node, "block", 0)
                bounded = t is not None and not (isinstance(t, ast.Constant) and t.value is None) \
                    or isinstance(b, ast.Constant) and b.value is False
                if not bounded:
                    self.bad("get", "taking an item blocks forever (the stop-condition is never checked again if the queue stays empty)", fr, node)
            ok = self.result(self.take(c), node, "item").put(drained=False)
            empty = c.put(exc="Empty", drained=True if c[self.stopflag] else c["drained"])
            return [(ok, False), (empty, True)]
        for ev in EVENTS:
            m = setter_of(name, ev)
            if m == "set" and ev == "_stop":
                c = c.put(stopped=True)
                return [(c, False)]
            if m == "set" and ev == "should_wait":
                return [(c.put(waiting="free"), False)]
            if m == "clear" and ev == "should_wait":
                if c["full"] is False:
                    self.bad("throttle", "the workers are paused although the queue is not full", fr, node)
                return [(c.put(waiting="paused"), False)]
            if m == "clear":
                self.bad("clear", f"the flag {ev} must never be reset", fr, node)
        return None

    def catches(self, h, c):
        if c["exc"] == "Empty":
            if h.type is None:
                return "yes"
            names = [unparse(x).split(".")[-1] for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
            return "yes" if any("Empty" in n or n in ("Exception", "BaseException") for n in names) else "no"
        return super().catches(h, c)

    def handler(self, eng, h, fr, c):
        return c.put(exc=None)

    def assume(self, eng, test, truth, fr, c):
        if isinstance(test, ast.Call):
            n = eng.canon(test.func, fr)
            if n is not None:
                if setter_of(n, self.stopflag) == "is_set" and truth:
                    return c.put(**{self.stopflag: True})
                if setter_of(n, "_stop") == "is_set":
                    return c.put(killed=True) if truth else (None if c["stopped"] else c)
                if setter_of(n, "should_wait") == "is_set":
                    return c.put(waiting="free" if truth else "paused")
                if setter_of(n, self.queue) == "empty":
                    return c.put(drained=bool(truth and c[self.stopflag]))
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Call):
            n = eng.canon(test.left.func, fr)
            r, op = test.comparators[0], test.ops[0]
            if setter_of(n, self.queue) == "qsize" and isinstance(r, ast.Constant) and r.value == 0:
                empty = {ast.Eq: truth, ast.NotEq: not truth, ast.Gt: not truth, ast.LtE: truth}.get(type(op))
                if empty is not None:
                    return c.put(drained=bool(empty and c[self.stopflag]))
            if setter_of(n, self.queue) == "qsize" and eng.canon(r, fr) == "self.out_cache_size":
                full = {ast.Lt: not truth, ast.GtE: truth}.get(type(op))
                if full is not None:
                    return c.put(full=full)
        return self.assume2(eng, test, truth, fr, c)

    def assume2(self, eng, test, truth, fr, c):
        if Roles.assume(self, eng, test, truth, fr, c) is None:
            return None
        r = self.role(eng, test, fr, c)
        if r == "item" and not truth:
            return c.put(valid="invalid")
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            r, o = self.role(eng, test.left, fr, c), test.comparators[0]
            if r == "item" and isinstance(o, ast.Constant) and o.value is None:
                isnone = truth if isinstance(test.ops[0], (ast.Is, ast.Eq)) else not truth
                if isnone and c["valid"] == "valid":
                    return None
                return c.put(valid="invalid") if isnone else c
        if isinstance(test, ast.Call) and last(test.func) == "isinstance" and len(test.args) == 2:
            r = self.role(eng, test.args[0], fr, c)
            ts = test.args[1].elts if isinstance(test.args[1], ast.Tuple) else [test.args[1]]
            isdict = all(last(t) in ("dict", "Mapping", "MutableMapping", "OrderedDict", "defaultdict") for t in ts)
            if r == "item" and isdict:
                if c["valid"] in ("valid", "invalid") and (c["valid"] == "valid") != truth:
                    return None
                return c.put(valid="valid" if truth else "invalid")
            if r == "cfgval" and isdict:
                if c["sub"] is not None and c["sub"] != truth:
                    return None
                return c.put(sub=truth)
        return c

    def finish(self, eng, normal, exc, f):
        where = f"{f.file}:{f.qual}"
        for c in normal:
            why = self.pending(c)
            self.rep.check(why is None, f"{self.label}:exit:item", f"no item is lost when the process ends ({why or 'all accounted'})", where)
            ok = bool(c["killed"] or (c[self.stopflag] and c["drained"]))
            self.rep.check(ok, f"{self.label}:exit:drained",
                           f"the process only ends if {self.stopflag} was set and the queue was found empty afterwards (or on _stop)", where)
            self.killed_exit |= bool(c["killed"])
            self.drained_exit |= bool(c[self.stopflag] and c["drained"])
        self.rep.check(self.drained_exit, f"{self.label}:terminates", f"the process ends once {self.stopflag} is set and the queue is empty", where)
        self.rep.check(self.killed_exit, f"{self.label}:stoppable", "the process ends if _stop is set", where)
        self.rep.check(self.gets > 0, f"{self.label}:gets", f"items are taken from self.{self.queue}", where)
        for c in exc:
            why = self.pending(c)
            self.rep.check(why is None, f"{self.label}:exception:item", f"an exception must not lose an item ({why})", where)
        if eng.overflow:
            self.rep.undecided(f"{self.label}:states", "too many abstract states", where)


class Combiner(QueueClient):
    def __init__(self, P, rep, inl, putters):
        super().__init__(P, rep, "combiner", "queue", "should_stop", inl)
        self.putters = putters
        self.appends = self.handed = 0

    def take(self, c):
        return c.put(item="fresh", valid="?", total=0, good=0, entries="no", const=None, sub=None)

    def pending(self, c):
        if c["item"] is None:
            return None
        if c["total"] == 0:
            return "the previous one was counted"
        if c["total"] > 1 or c["good"] > 1:
            return "the previous one is counted exactly once"
        if c["good"] == 1 and c["entries"] != "all":
            return "all entries of the previous one were added to the batch"
        if c["good"] == 0 and c["valid"] != "invalid":
            return "the previous (valid) one was counted as a result"
        if c["good"] == 1 and c["valid"] == "invalid":
            return "the previous (invalid) one was counted as an error"
        return None

    def endstmt(self, c):
        c = super().endstmt(c)
        if c["item"] is not None and self.pending(c) is None:
            keep = [(k, r) for k, r in (c["roles"] or ()) if isinstance(r, tuple) and r[0] in ("batch", "thread", "const", "num")]
            c = c.put(item=None, valid=None, total=None, good=None, entries=None, const=None, sub=None, n1=None, n2=None, roles=frozenset(keep))
        return c

    # batches -----------------------------------------------------------
    def expr_role(self, eng, e, fr, c):
        if isinstance(e, (ast.Dict, ast.DictComp)):
            return ("batch", e.lineno, e.col_offset)
        if isinstance(e, (ast.Tuple, ast.List)):
            for x in e.elts:
                r = self.role(eng, x, fr, c)
                if isinstance(r, tuple) and r[0] == "batch":
                    return r
            return None
        if isinstance(e, ast.Starred):
            return self.role(eng, e.value, fr, c)
        t = self.text(eng, e, fr, c)
        if t is not None:
            return ("text", t)
        if isinstance(e, ast.Subscript):
            v, k = self.role(eng, e.value, fr, c), self.role(eng, e.slice, fr, c)
            if v == "item" and k == ("text", ("cfg",)):
                return "cfgval"
            if v == "cfgval" and k == ("text", ("key",)):
                return "keyval"
            if isinstance(v, tuple) and v[0] == "batch":
                return ("slot", v, k)
        return None

    PRE = "const__"

    def text(self, eng, e, fr, c):
        """concatenations of known strings as a tuple of parts"""
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            return (e.value,)
        if isinstance(e, (ast.Name, ast.Attribute)):
            r = self.role(eng, e, fr, c)
            return r[1] if isinstance(r, tuple) and r[0] == "text" else ((r[1],) if isinstance(r, tuple) and r[0] == "const" and isinstance(r[1], str) else None)
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            a, b = self.text(eng, e.left, fr, c), self.text(eng, e.right, fr, c)
            return None if a is None or b is None else a + b
        if isinstance(e, ast.JoinedStr):
            out = ()
            for v in e.values:
                t = self.text(eng, v.value if isinstance(v, ast.FormattedValue) else v, fr, c)
                if t is None or isinstance(v, ast.FormattedValue) and (v.format_spec is not None or v.conversion not in (-1, 115)):
                    return None
                out += t
            return out
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mod):
            return None
        if isinstance(e, ast.Subscript):
            if isinstance(e.slice, ast.Slice) and e.slice.upper is None and e.slice.step is None and self.text(eng, e.value, fr, c) == ("cfg",):
                if self.number(eng, e.slice.lower, fr, c) == len(self.PRE):
                    return ("stripped",) if c["const"] else None
            v = e.value
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and self.text(eng, v.func.value, fr, c) == ("cfg",) and c["const"]:
                if v.func.attr == "split" and len(v.args) == 2 and self.text(eng, v.args[0], fr, c) == (self.PRE,) and unparse(v.args[1]) == "1" and unparse(e.slice) in ("1", "-1"):
                    return ("stripped",)
                if v.func.attr == "partition" and self.text(eng, v.args[0], fr, c) == (self.PRE,) and unparse(e.slice) in ("2", "-1"):
                    return ("stripped",)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute):
            base = self.text(eng, e.func.value, fr, c)
            if base == ("cfg",) and e.func.attr == "removeprefix" and len(e.args) == 1 and self.text(eng, e.args[0], fr, c) == (self.PRE,):
                return ("stripped",) if c["const"] else ("cfg",)
            if base == ("cfg",) and e.func.attr == "replace" and len(e.args) == 3 and unparse(e.args[2]) == "1" and c["const"] \
                    and self.text(eng, e.args[0], fr, c) == (self.PRE,) and self.text(eng, e.args[1], fr, c) == ("",):
                return ("stripped",)
            if e.func.attr == "join" and len(e.args) == 1 and isinstance(e.args[0], (ast.List, ast.Tuple)):
                parts = [self.text(eng, x, fr, c) for x in e.args[0].elts]
                if base is not None and all(p is not None for p in parts):
                    out = parts[0]
                    for p in parts[1:]:
                        out += base + p
                    return out
            if e.func.attr == "format" and base is not None and len(base) == 1 and base[0].count("{}") == len(e.args):
                out, bits = (), base[0].split("{}")
                for i, b in enumerate(bits):
                    if b:
                        out += (b,)
                    if i < len(e.args):
                        t = self.text(eng, e.args[i], fr, c)
                        if t is None:
                            return None
                        out += t
                return out
        if isinstance(e, ast.Call) and last(e.func) == "str" and len(e.args) == 1:
            return self.text(eng, e.args[0], fr, c)
        return None

    def number(self, eng, e, fr, c):
        if isinstance(e, ast.Constant) and isinstance(e.value, int):
            return e.value
        if isinstance(e, ast.Call) and last(e.func) == "len" and len(e.args) == 1:
            t = self.text(eng, e.args[0], fr, c)
            if t is not None and all(x not in ("cfg", "key", "stripped") for x in t):
                return sum(len(x) for x in t)
        if isinstance(e, ast.Name):
            r = self.role(eng, e, fr, c)
            if isinstance(r, tuple) and r[0] == "const":
                return r[1]
            if isinstance(r, tuple) and r[0] == "num":
                return r[1]
        return None

    def filled(self, c):
        return dict(c["batches"] or ())

    def mark(self, c, b, st):
        d = self.filled(c)
        if st is None:
            d.pop(b, None)
        else:
            d[b] = st
        return c.put(batches=frozenset(d.items()))

    def create(self, eng, node, b, fr, c):
        if self.filled(c).get(b) == "filled":
            self.bad("batch", "a batch that holds entries is replaced before it was handed over for writing", fr, node)
        return self.mark(c, b, None)

    def assign(self, eng, t, val, fr, c):
        if isinstance(val, (ast.Dict, ast.DictComp)):
            c = self.create(eng, val, ("batch", val.lineno, val.col_offset), fr, c)
        if isinstance(t, ast.Attribute) and eng.canon(t, fr) in ("self.p_totcnt.value", "self.p_meancnt.value"):
            p = getattr(t, "_parent", None)
            one = isinstance(p, ast.AugAssign) and isinstance(p.op, ast.Add) and isinstance(p.value, ast.Constant) and p.value.value == 1
            if isinstance(p, ast.Assign) and isinstance(p.value, ast.BinOp) and isinstance(p.value.op, ast.Add):
                one = eng.canon(p.value.left, fr) == eng.canon(t, fr) and unparse(p.value.right) == "1"
            k = "total" if "totcnt" in eng.canon(t, fr) else "good"
            if not one:
                self.bad("count", f"the counter {unparse(t)} must be increased by one", fr, t)
            if c["item"] is None:
                self.bad("count-twice", "a counter is increased although no (uncounted) item was taken from the queue", fr, t)
            if not c["lock"]:
                self.bad("count-lock", "the shared counters must only be changed while holding the lock", fr, t)
            return c.put(**{k: min((c[k] or 0) + 1, 2)})
        if isinstance(t, ast.Subscript) and isinstance(getattr(t, "_parent", None), ast.AugAssign):
            b = self.role(eng, t.value, fr, c)
            if isinstance(b, tuple) and b[0] == "batch" and isinstance(val, ast.List) and len(val.elts) == 1:
                return self.add(eng, t, b, self.role(eng, t.slice, fr, c), self.role(eng, val.elts[0], fr, c), fr, c)
        c = super().assign(eng, t, val, fr, c)
        if isinstance(t, ast.Name) and val is not None and not isinstance(val, ast.Constant):
            n = self.number(eng, val, fr, c)
            if n is not None:
                c = self.setrole(c, eng.canon(t, fr), ("num", n))
        return c

    def add(self, eng, node, b, k, v, fr, c):
        self.appends += 1
        if self.filled(c).get(b) == "handed":
            self.bad("batch-shared", "entries are added to a batch that was already handed over for writing", fr, node)
        want = None
        if c["const"] is True:
            want = (("text", ("stripped",)), "cfgval")
        elif c["const"] is False and c["sub"] is True:
            want = (("text", ("cfg", "/", "key")), "keyval")
        elif c["const"] is False and c["sub"] is False:
            want = (("text", ("cfg",)), "cfgval")
        got = (("text", k[1]) if isinstance(k, tuple) and k[0] == "text" else k, v)
        if isinstance(got[0], tuple) and got[0][0] == "text":
            got = (("text", self.norm(got[0][1])), v)
        if want != got:
            self.bad("entry", f"an entry must be stored under its own key (const__X -> X, config results -> config/key, otherwise the key itself): "
                     f"const={c['const']} dict={c['sub']} gives key {got[0]} value {got[1]}", fr, node)
        c = self.mark(c, b, "filled")
        f = "n2" if v == "keyval" else "n1"
        return c.put(**{f: min((c[f] or 0) + 1, 2)})

    @staticmethod
    def norm(t):
        return tuple(x for x in t if x != "")

    def with_enter(self, eng, it, fr, c):
        if eng.canon(it.context_expr, fr) == "self.lock":
            return c.put(lock=True)
        return None

    def with_exit(self, eng, it, fr, c, exc):
        if eng.canon(it.context_expr, fr) == "self.lock":
            return c.put(lock=False)
        return c

    def call(self, eng, node, name, args, fr, c):
        r = super().call(eng, node, name, args, fr, c)
        if r is not None:
            return r
        f = node.func if isinstance(node, ast.Call) else None
        if f is None:
            return None
        if name == "self.lock.acquire":
            return [(c.put(lock=True), False)]
        if name == "self.lock.release":
            return [(c.put(lock=False), False)]
        if last(f) in ("defaultdict", "dict", "OrderedDict") and isinstance(f, (ast.Name, ast.Attribute)):
            src = self.role(eng, node.args[0], fr, c) if node.args else None
            if isinstance(src, tuple) and src[0] == "batch":
                return [(self.result(c, node, src), False)]
            b = ("batch", node.lineno, node.col_offset)
            return [(self.result(self.create(eng, node, b, fr, c), node, b), False)]
        if isinstance(f, ast.Attribute):
            base = self.role(eng, f.value, fr, c)
            if f.attr == "setdefault" and isinstance(base, tuple) and base[0] == "batch":
                return [(self.result(c, node, ("slot", base, self.role(eng, node.args[0], fr, c))), False)]
            if f.attr == "append" and isinstance(base, tuple) and base[0] == "slot" and len(node.args) == 1:
                return [(self.add(eng, node, base[1], base[2], self.role(eng, node.args[0], fr, c), fr, c), False)]
            if f.attr in ("clear", "pop", "popitem") and isinstance(base, tuple) and base[0] == "batch" and self.filled(c).get(base):
                self.bad("batch-removed", "entries of a batch are removed while they wait for being written", fr, node)
            if f.attr == "start" and isinstance(base, tuple) and base[0] == "thread":
                return [(self.hand(c, base[1]), False)]
            if f.attr == "copy" and isinstance(base, tuple) and base[0] == "batch":
                return [(self.result(c, node, base), False)]
        # handing over
        vals = list(node.args) + [k.value for k in node.keywords]
        batch = next((x for x in (self.role(eng, v, fr, c) for v in vals) if isinstance(x, tuple) and x[0] == "batch"), None)
        if batch is not None:
            tgt = [last(v) for v in vals if isinstance(v, ast.Attribute)]
            if any(self.isputter(t) for t in tgt):
                if last(f) in ("Thread", "Timer"):
                    return [(self.result(c, node, ("thread", batch)), False)]
                if last(f) in ("submit", "apply", "apply_async"):
                    return [(self.hand(c, batch), False)]
            if self.isputter(last(f)):
                return [(self.mark(c, batch, None), False)]
            if name == "self.out_queue.put":
                return [(self.hand(c, batch), False)]
        t = self.text(eng, node, fr, c)
        if t is not None:
            return [(self.result(c, node, ("text", t)), False)]
        return None

    def isputter(self, name):
        return any(q.split(".")[-1] == name for q in self.putters)

    def hand(self, c, b):
        self.handed += 1
        return self.mark(c, b, "handed" if self.filled(c).get(b) else None)

    def assume2(self, eng, test, truth, fr, c):
        # emptiness of a batch
        b, k = self.size_test(eng, test, fr, c)
        if b is not None:
            st = self.filled(c).get(b)
            if st and k is not None:          # holds at least one entry
                return c if k == truth else None
            if not st:
                return c
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Attribute) and test.func.attr == "startswith" \
                and self.text(eng, test.func.value, fr, c) == ("cfg",) and len(test.args) == 1 and self.text(eng, test.args[0], fr, c) == (self.PRE,):
            if c["const"] is not None and c["const"] != truth:
                return None
            return c.put(const=truth)
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Subscript) and isinstance(test.left.slice, ast.Slice) \
                and test.left.slice.lower is None and self.text(eng, test.left.value, fr, c) == ("cfg",) \
                and self.text(eng, test.comparators[0], fr, c) == (self.PRE,) and self.number(eng, test.left.slice.upper, fr, c) == len(self.PRE):
            return c.put(const=truth if isinstance(test.ops[0], ast.Eq) else not truth)
        return super().assume2(eng, test, truth, fr, c)

    def size_test(self, eng, test, fr, c):
        """(batch, truth for every batch with at least one entry or None)"""
        r = self.role(eng, test, fr, c)
        if isinstance(r, tuple) and r[0] == "batch":
            return r, True
        if isinstance(test, ast.Call) and last(test.func) == "len" and len(test.args) == 1:
            r = self.role(eng, test.args[0], fr, c)
            if isinstance(r, tuple) and r[0] == "batch":
                return r, True
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Call) and last(test.left.func) == "len":
            r = self.role(eng, test.left.args[0], fr, c)
            n = test.comparators[0].value if isinstance(test.comparators[0], ast.Constant) else None
            if isinstance(r, tuple) and r[0] == "batch" and isinstance(n, int):
                return r, interval(test.ops[0], n)
        return None, None

    # loops over an item -------------------------------------------------
    def over(self, eng, it, fr, c):
        """which entries does an iterable produce?"""
        if isinstance(it, ast.Call) and last(it.func) in ("list", "tuple", "sorted", "iter") and len(it.args) == 1:
            return self.over(eng, it.args[0], fr, c)
        m = None
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and not it.args:
            m, it = it.func.attr, it.func.value
        r = self.role(eng, it, fr, c)
        if r == "item":
            return {"items": ("tuple", ("text", ("cfg",)), "cfgval"), "keys": ("text", ("cfg",)), None: ("text", ("cfg",))}.get(m), 1
        if r == "cfgval":
            return {"items": ("tuple", ("text", ("key",)), "keyval"), "keys": ("text", ("key",)), None: ("text", ("key",))}.get(m), 2
        return None, None

    def loop_iter(self, eng, node, fr, c, begin):
        if not isinstance(node, (ast.For, ast.AsyncFor)):
            return c
        return self.step(eng, node, node.target, node.iter, fr, c, begin)

    def step(self, eng, node, target, it, fr, c, begin):
        r, lev = self.over(eng, it, fr, c)
        if r is None:
            return c
        if begin:
            c = self.bind(eng, target, r, fr, c)
            return c.put(n1=0, const=None, sub=None) if lev == 1 else c.put(n2=0)
        n = c["n1"] if lev == 1 else c["n2"]
        if n != 1:
            self.bad("entries", f"each entry of a result must be added to the batch exactly once (found a path with {n})", fr, node)
        if lev == 1:
            return c.put(entries="some", const=None, sub=None)
        return c

    def loop_done(self, eng, node, fr, c):
        r, lev = self.over(eng, node.iter, fr, c)
        if lev == 1:
            return c.put(entries="all")
        if lev == 2:
            return c.put(n1=min((c["n1"] or 0) + 1, 2), n2=None)
        return c

    def finish(self, eng, normal, exc, f):
        super().finish(eng, normal, exc, f)
        where = f"{f.file}:{f.qual}"
        for c in normal | exc:
            left = [b for b, st in self.filled(c).items() if st == "filled"]
            self.rep.check(not left, "combiner:exit:batch", "a batch that holds entries is handed over before the combiner ends", where)
        self.rep.check(self.appends > 0 and self.handed > 0, "combiner:batch", f"batches are filled and handed over ({self.appends}, {self.handed})", where)


def interval(op, n):
    """truth of  size <op> n  for every size >= 1 (None: depends on the size)"""
    if isinstance(op, ast.Gt):
        return True if n <= 0 else None
    if isinstance(op, ast.GtE):
        return True if n <= 1 else None
    if isinstance(op, (ast.NotEq, ast.IsNot)):
        return True if n <= 0 else None
    if isinstance(op, (ast.Eq, ast.Is)):
        return False if n <= 0 else None
    if isinstance(op, ast.LtE):
        return False if n <= 0 else None
    if isinstance(op, ast.Lt):
        return False if n <= 1 else None
    return None


class Writer(QueueClient):
    def __init__(self, P, rep, inl):
        super().__init__(P, rep, "writer", "out_queue", "combiner_ready", inl)
        self.appends = 0

    def take(self, c):
        if c["full"] is False and c["waiting"] == "paused":
            self.paused = True
        return c.put(item="fresh", valid="valid", entries="no", waiting=None if c["waiting"] != "free" else "free", full=None, stopped=None)

    def pending(self, c):
        if c["item"] is None or c["entries"] == "all":
            return None
        if c["stopped"] and c["waiting"] == "free":
            return None          # the failure is announced: everything stops, nobody is left waiting
        if c["stopped"]:
            return "the workers were released after a failed write"
        return "the previous one was written completely (or the failure was announced by _stop)"

    def safe(self, node, name, fr, s):
        if isinstance(node, ast.Subscript):
            return True
        n = last(node.func)
        if n in ("HDFStore", "append", "put", "to_hdf", "append_to_multiple", "flush", "open") and isinstance(node.func, ast.Attribute):
            return self.role(self.eng, node.func.value, fr, s.c) in (None, "list") and n == "append" and not self.isstore(self.eng, node.func.value, fr, s.c)
        return super().safe(node, name, fr, s)

    def isstore(self, eng, e, fr, c):
        return self.role(eng, e, fr, c) == "store"

    def call(self, eng, node, name, args, fr, c):
        r = super().call(eng, node, name, args, fr, c)
        if r is not None:
            return r
        if not isinstance(node, ast.Call):
            return None
        f = node.func
        if name == "self.write_lock.acquire":
            if c["lock"]:
                self.bad("lock", "the write lock is acquired although it is already held (deadlock)", fr, node)
            return [(c.put(lock=True), False)]
        if name == "self.write_lock.release":
            if not c["lock"]:
                self.bad("lock", "the write lock is released although it is not held", fr, node)
            return [(c.put(lock=False), False)]
        if last(f) == "HDFStore":
            mode = kwarg(node, "mode", 1)
            if not (isinstance(mode, ast.Constant) and mode.value in ("a", "r+")) and mode is not None:
                self.bad("mode", f"the output container must be opened for appending (mode {unparse(mode)})", fr, node)
            if eng.canon(kwarg(node, "path", 0), fr) != "self.dst_path":
                self.bad("path", "results must be written to self.dst_path", fr, node)
            if not c["lock"]:
                self.bad("unlocked", "the output container is opened without holding the write lock", fr, node)
            return [(self.result(c, node, "store"), False), (c, True)]
        if isinstance(f, ast.Attribute) and self.isstore(eng, f.value, fr, c):
            if f.attr == "append":
                self.appends += 1
                k, v = kwarg(node, "key", 0), kwarg(node, "value", 1)
                if (self.role(eng, k, fr, c), self.role(eng, v, fr, c)) != (("text", ("cfg",)), "cfgval"):
                    self.bad("entry", f"an entry must be written under its own key: append({unparse(k)}, {unparse(v)})", fr, node)
                if not c["lock"]:
                    self.bad("unlocked", "the output container is written without holding the write lock", fr, node)
                ap = kwarg(node, "append")
                if ap is not None and not (isinstance(ap, ast.Constant) and ap.value is True):
                    self.bad("append", "existing rows must be kept", fr, node)
                return [(c.put(n1=min((c["n1"] or 0) + 1, 2)), False), (c, True)]
            if f.attr in ("put", "remove", "__setitem__"):
                self.bad("overwrite", f"store.{f.attr} overwrites already written results", fr, node)
        return None

    def with_enter(self, eng, it, fr, c):
        if eng.canon(it.context_expr, fr) == "self.write_lock":
            if c["lock"]:
                self.bad("lock", "the write lock is acquired although it is already held (deadlock)", fr, it.context_expr)
            return c.put(lock=True)
        r = self.role(eng, it.context_expr, fr, c)
        if r == "store" and isinstance(it.optional_vars, ast.Name):
            return c.put(pendstore=eng.canon(it.optional_vars, fr))
        return None

    def assign(self, eng, t, val, fr, c):
        if val is None and isinstance(t, ast.Name) and c["pendstore"] == eng.canon(t, fr):
            return self.setrole(c, c["pendstore"], "store").put(pendstore=None)
        if isinstance(t, ast.Subscript) and self.isstore(eng, t.value, fr, c):
            self.bad("overwrite", "store[key] = value overwrites already written results", fr, t)
        return super().assign(eng, t, val, fr, c)

    def with_exit(self, eng, it, fr, c, exc):
        if eng.canon(it.context_expr, fr) == "self.write_lock":
            return c.put(lock=False)
        return c

    expr_role = lambda self, eng, e, fr, c: Combiner.expr_role(self, eng, e, fr, c) if isinstance(e, ast.Subscript) else None
    text = Combiner.text
    number = Combiner.number
    over = Combiner.over
    PRE = Combiner.PRE

    def loop_iter(self, eng, node, fr, c, begin):
        if not isinstance(node, (ast.For, ast.AsyncFor)):
            return c
        r, lev = self.over(eng, node.iter, fr, c)
        if lev != 1:
            return c
        if begin:
            return self.bind(eng, node.target, r, fr, c).put(n1=0)
        if c["n1"] != 1:
            self.bad("entries", f"each entry of a batch must be written exactly once (found a path with {c['n1']})", fr, node)
        return c.put(entries="some")

    def loop_done(self, eng, node, fr, c):
        if self.over(eng, node.iter, fr, c)[1] == 1:
            return c.put(entries="all")
        return c

    def finish(self, eng, normal, exc, f):
        super().finish(eng, normal, exc, f)
        where = f"{f.file}:{f.qual}"
        for c in normal | exc:
            self.rep.check(not c["lock"], "writer:exit:lock", "the write lock is not held when the writer ends", where)
        self.rep.check(self.appends > 0, "writer:append", "results are appended to the container", where)


class Worker(Roles):
    def __init__(self, P, rep, inl):
        super().__init__(P, rep, "worker")
        self.inl, self.n = inl, 0

    def wants(self, g):
        return g.qual in self.inl

    def safe(self, node, name, fr, s):
        if isinstance(node, ast.Subscript):
            return True
        return name in ("print",) or name.startswith("log.") or name.startswith("traceback.")

    def call(self, eng, node, name, args, fr, c):
        if name == "self.process_func":
            if self.role(eng, node.args[0], fr, c) != "data" or len(node.args) != 2 or node.keywords \
                    or not isinstance(node.args[1], ast.Starred) or self.role(eng, node.args[1].value, fr, c) != "rest":
                self.bad("process", "process_func must get what was read together with the remaining arguments", fr, node)
            return [(self.result(c.put(processed=True), node, "result"), False), (c, True)]
        if name == "self.reader_func":
            if self.role(eng, node.args[0], fr, c) != "feature":
                self.bad("reader", "reader_func must get the arguments of the feature", fr, node)
            return [(self.result(c, node, "data"), False), (c, True)]
        if name in ("self.queue.put", "self.queue.put_nowait"):
            self.n += 1
            r = self.role(eng, kwarg(node, "item", 0) or kwarg(node, "obj", 0), fr, c)
            if c["processed"] and r != "result":
                self.bad("put", "the result of a processed feature must be handed to the combiners", fr, node)
            if not c["processed"] and r != ("const", None):
                self.bad("put-none", f"None must be handed to the combiners if there is no result (found {unparse(node)})", fr, node)
            if c["puts"]:
                self.bad("twice", "a feature must be reported exactly once", fr, node)
            return [(c.put(puts=min((c["puts"] or 0) + 1, 2)), False)]
        if name == "self.should_wait.wait":
            return [(c.put(waited=True), False)]
        return None

    def expr_role(self, eng, e, fr, c):
        if isinstance(e, ast.Subscript):
            r = self.role(eng, e.value, fr, c)
            if isinstance(r, tuple) and r[0] == "tuple":
                if unparse(e.slice) == "0":
                    return "feature"
                if unparse(e.slice) == "1:":
                    return "rest"
        return None


class WorkerF(Worker):
    """if there is no reader function, the arguments themselves are the data"""

    def assume(self, eng, test, truth, fr, c):
        if isinstance(test, ast.Compare) and eng.canon(test.left, fr) == "self.reader_func" and unparse(test.comparators[0]) == "None":
            has = truth if isinstance(test.ops[0], (ast.IsNot, ast.NotEq)) else not truth
            return c.put(reader=has)
        if eng.canon(test, fr) == "self.reader_func":
            return c.put(reader=truth)
        if isinstance(test, ast.Call) and last(test.func) == "callable" and eng.canon(test.args[0], fr) == "self.reader_func":
            return c.put(reader=truth)
        return Roles.assume(self, eng, test, truth, fr, c)

    def role(self, eng, e, fr, c):
        r = super().role(eng, e, fr, c)
        if r == "feature" and c["reader"] is False:
            return "data"
        return r


class Stop(Roles):
    """shutdown: stop -> join combiners -> combiner_ready -> join writers -> _stop -> manager"""

    def __init__(self, P, rep, inl, starters):
        super().__init__(P, rep, "shutdown")
        self.inl, self.starters = inl, starters

    def wants(self, g):
        return g.qual in self.inl

    def safe(self, node, name, fr, s):
        return name != "$yield" and not (isinstance(node, ast.Call) and last(node.func) in self.starters)

    @staticmethod
    def joined(c, k):
        return c["joined_" + k] or not c[k + "s"]

    def call(self, eng, node, name, args, fr, c):
        if name == "$yield":
            return [(c.put(yielded=True), False), (c.put(yielded=True), True)]
        f = node.func
        if last(f) in self.starters:
            k = self.starters[last(f)]
            if not c["manager"]:
                self.bad("start", "the shared queues must be set up before the processes are started", fr, node)
            return [(self.result(c.put(**{k + "s": True}), node, ("procs", k)), False), (c, True)]
        if last(f) == "_setup_manager":
            return [(self.result(c.put(manager=True), node, "manager"), False), (c, True)]
        if name == "self.should_stop.set":
            return [(c.put(stop=True), False)]
        if name == "self.combiner_ready.set":
            if not self.joined(c, "combiner"):
                self.bad("order", "combiner_ready is announced before all combiners have finished (results still to be combined would be lost)", fr, node)
            return [(c.put(ready=True), False)]
        if name == "self._stop.set":
            if not (self.joined(c, "combiner") and self.joined(c, "writer")):
                self.bad("order", "_stop is announced before combiners and writers have finished (pending results would be lost)", fr, node)
            return [(c.put(kill=True), False)]
        if isinstance(f, ast.Attribute):
            r = self.role(eng, f.value, fr, c)
            if isinstance(r, tuple) and r[0] == "proc":
                if f.attr == "join":
                    t = kwarg(node, "timeout", 0)
                    if t is not None and not (isinstance(t, ast.Constant) and t.value is None):
                        self.bad("join", f"a {r[1]} is joined with a timeout (pending results would be lost)", fr, node)
                    if r[1] == "combiner" and not c["stop"]:
                        self.bad("order", "combiners are joined before they are told to stop (deadlock)", fr, node)
                    if r[1] == "writer" and not c["ready"]:
                        self.bad("order", "writers are joined before combiner_ready is set (deadlock)", fr, node)
                    return [(c.put(n=min((c["n"] or 0) + 1, 2)), False)]
                if f.attr in ("terminate", "kill"):
                    self.bad("kill", f"a {r[1]} is killed instead of joined", fr, node)
            if r == "manager" and f.attr == "shutdown":
                if not (self.joined(c, "combiner") and self.joined(c, "writer")):
                    self.bad("order", "the manager (queues) is shut down before combiners and writers have finished", fr, node)
                return [(c.put(down=True), False)]
        return None

    def expr_role(self, eng, e, fr, c):
        if isinstance(e, ast.List) and not e.elts:
            return "nothing"
        return None

    def aug(self, eng, t, val, fr, c):
        r = self.role(eng, val, fr, c)
        return self.setrole(c, eng.canon(t, fr), r).put(last=None)

    def procs(self, eng, it, fr, c):
        if isinstance(it, ast.Call) and last(it.func) in ("list", "tuple", "reversed", "iter", "enumerate") and len(it.args) == 1:
            return self.procs(eng, it.args[0], fr, c)
        return self.role(eng, it, fr, c)

    def iterate(self, eng, target, it, fr, c, begin, node):
        r = self.procs(eng, it, fr, c)
        if isinstance(r, tuple) and r[0] == "procs":
            if begin:
                if isinstance(it, ast.Call) and last(it.func) == "enumerate":
                    target = target.elts[1]
                return self.bind(eng, target, ("proc", r[1]), fr, c).put(n=0)
            if not c["n"]:
                self.bad("join", f"a {r[1]} process is not joined on some path", fr, node)
        return c

    def loop_iter(self, eng, node, fr, c, begin):
        return self.iterate(eng, node.target, node.iter, fr, c, begin, node) if isinstance(node, ast.For) else c

    def comp_iter(self, eng, comp, gen, fr, c, begin):
        return self.iterate(eng, gen.target, gen.iter, fr, c, begin, comp) if gen is not None else c

    def loop_done(self, eng, node, fr, c):
        return self.done(eng, node.iter, fr, c)

    def comp_done(self, eng, comp, fr, c):
        return self.done(eng, comp.generators[0].iter, fr, c)

    def done(self, eng, it, fr, c):
        r = self.procs(eng, it, fr, c)
        if isinstance(r, tuple) and r[0] == "procs" and c["n"]:
            return c.put(**{"joined_" + r[1]: True, "n": None})
        if isinstance(r, tuple) and r[0] == "procs" and c["n"] is None:
            return c.put(**{"joined_" + r[1]: True})      # no process of that kind
        return c


def p_accounting(P, tier):
    rep = Report("P14", tier, "Path-sensitive typestate of worker, combiner, writer and shutdown: every way through the functions (exceptions, "
                 "finally, helper functions) is covered, loops to a fixpoint; an item taken from a queue is a resource that must be counted once, "
                 "stored under its own key and handed on before the next one is taken.")
    W = P.cls("_rtprocess_writer.RT1_processor")
    putq = contains(P, lambda n: isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "put"
                    and isinstance(n.func.value, ast.Attribute) and n.func.value.attr == "out_queue")
    inside = {f.qual for f in P.all_functions() if f.module is W.module}
    helpers = lambda *no: {x for x in inside if not any(x.endswith("." + n) for n in no)}

    def method(n):
        m = P.find_method(W, n)
        if m is None:
            raise AnalysisBroken(f"RT1_processor.{n} vanished")
        return m
    # worker
    f = method("_worker_process")
    cl = WorkerF(P, rep, helpers("_worker_process"))
    eng = Engine(P, cl)
    a = f.node.args
    pos = [x.arg for x in a.args][1:]
    roles = {(pos[0], "feature")} if pos else set()
    if a.vararg is not None:
        roles.add((a.vararg.arg, "rest" if pos else ("tuple", "feature", "rest")))
    n, x = eng.run(f, CS(roles=frozenset(roles)), cls=W)
    rep.analysed |= eng.visited
    where = f"{f.file}:{f.qual}"
    for c in n:
        rep.check(c["puts"] == 1, "worker:once", f"each feature is reported to the combiners exactly once (path with {c['puts'] or 0} reports)", where)
        rep.check(c["waited"] is True, "worker:wait", "the worker waits while processing is paused", where)
    rep.check(not x, "worker:exception", "a problem with one feature must not stop the others", where)
    rep.check(cl.n > 0 and bool(n), "worker:puts", f"{cl.n} reports analysed", where)
    # combiner
    f = method("_combiner_process")
    cl = Combiner(P, rep, helpers("_combiner_process", "print_progress", "stop", *{q.split(".")[-1] for q in putq & inside}), putq & inside)
    eng = Engine(P, cl)
    cl.eng = eng
    n, x = eng.run(f, CS(), cls=W)
    rep.analysed |= eng.visited
    cl.finish(eng, n, x, f)
    combine(P, W, rep, helpers("_combine_results"))
    # writer
    f = method("_save_file_process")
    cl = Writer(P, rep, helpers("_save_file_process", "stop", "print_progress", "manual_shutdown"))
    eng = Engine(P, cl)
    cl.eng = eng
    n, x = eng.run(f, CS(), cls=W)
    rep.analysed |= eng.visited
    cl.finish(eng, n, x, f)
    shutdown(P, W, rep, helpers)
    started(P, W, rep)
    rep.assume("queues, events and locks of the multiprocessing manager work as documented; log calls and thread/process creation do not raise")
    rep.minimum = 20
    from .finalout import workers
    workers(P, rep)
    return rep


def shutdown(P, W, rep, helpers):
    f = P.find_method(W, "writer_pool")
    if f is None:
        raise AnalysisBroken("RT1_processor.writer_pool vanished")
    starters = {}
    for g in P.all_functions():
        for n in ast.walk(g.node):
            if isinstance(n, ast.Call) and last(n.func) == "Process":
                t = kwarg(n, "target", 1)
                if last(t) == "_save_file_process":
                    starters[g.name] = "writer"
                if last(t) == "_combiner_process":
                    starters[g.name] = "combiner"
    if set(starters.values()) != {"writer", "combiner"}:
        rep.undecided("shutdown:start", f"processes started by {starters}", f.qual)
        return
    cl = Stop(P, rep, helpers("writer_pool", *starters, "manual_shutdown", "_combiner_process", "_save_file_process", "print_progress", "_setup_manager"), starters)
    eng = Engine(P, cl)
    n, x = eng.run(f, CS(), cls=W)
    rep.analysed |= eng.visited
    where = f"{f.file}:{f.qual}"
    rep.check(any(c["yielded"] for c in n), "shutdown:yield", "the pool is handed to its user", where)
    for c in n | x:
        if not c["manager"]:
            continue
        started = c["writers"] or c["combiners"]
        done = all(c[k] for k in ("stop", "ready", "kill", "down")) and (not c["combiners"] or c["joined_combiner"]) and (not c["writers"] or c["joined_writer"])
        if c["yielded"]:
            rep.check(bool(done), "shutdown:complete", "after use (also after an exception) stop is announced, combiners and writers are joined in this order, "
                      f"everything is shut down ({ {k: v for k, v in c.d.items() if k not in ('roles', 'last', 'retval')} })", where)
        elif started:
            rep.check(bool(c["stop"] and c["kill"]), "shutdown:failed-start", "already started processes are told to stop if starting the others failed", where)


def started(P, W, rep):
    """every process that is created is started"""
    for tgt in ("_save_file_process", "_combiner_process"):
        found = False
        for g in P.all_functions():
            calls = [n for n in ast.walk(g.node) if isinstance(n, ast.Call) and last(n.func) == "Process" and last(kwarg(n, "target", 1)) == tgt]
            if not calls or g.cls is None or g.cls.node is not W.node:
                continue
            found = True
            where = f"{g.file}:{g.qual}"
            rep.analysed.add(g.qual)
            starts = [n for n in ast.walk(g.node) if isinstance(n, ast.Call) and last(n.func) == "start"]
            rep.check(bool(starts), f"start:{tgt}", "each created process is started", where)
        if not found:
            rep.undecided(f"start:{tgt}", "no process is started for it", "_rtprocess_writer")


def combine(P, W, rep, inl):
    """the function that turns a batch into one table per key"""
    f = P.find_method(W, "_combine_results")
    if f is None:
        return
    cl = Combine(P, rep, inl)
    eng = Engine(P, cl)
    p = f.params()[1]
    n, x = eng.run(f, CS(roles=frozenset({(p, "batch")})), cls=W)
    rep.analysed |= eng.visited
    where = f"{f.file}:{f.qual}"
    for c in n:
        rep.check(c["puts"] == 1, "combine:put", f"a combined batch is put on the output queue exactly once ({c['puts'] or 0})", where)
        rep.check(c["entries"] == "all", "combine:entries", "all keys of the batch are combined", where)


class Combine(Roles):
    def __init__(self, P, rep, inl):
        super().__init__(P, rep, "combine")
        self.inl = inl

    def wants(self, g):
        return g.qual in self.inl

    def safe(self, node, name, fr, s):
        return True

    def is_iter(self, eng, it, fr, c):
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and self.role(eng, it.func.value, fr, c) == "batch":
            return {"items": ("tuple", "key", "vals"), "keys": "key"}.get(it.func.attr)
        return "key" if self.role(eng, it, fr, c) == "batch" else None

    def expr_role(self, eng, e, fr, c):
        if isinstance(e, ast.Dict) and not e.keys:
            return "out"
        if isinstance(e, ast.Subscript):
            if (self.role(eng, e.value, fr, c), self.role(eng, e.slice, fr, c)) == ("batch", "key"):
                return "vals"
            if self.role(eng, e.value, fr, c) == "vals" and unparse(e.slice) in ("0", "-1"):
                return "first"
        if isinstance(e, ast.IfExp):
            a, b = self.role(eng, e.body, fr, c), self.role(eng, e.orelse, fr, c)
            return a if a == b else None
        return None

    def call(self, eng, node, name, args, fr, c):
        if not isinstance(node, ast.Call):
            return None
        n = last(node.func)
        if n in ("concat", "Series") and self.role(eng, kwarg(node, "objs" if n == "concat" else "data", 0), fr, c) == "vals":
            extra = [k for k in node.keywords if k.arg in ("ignore_index", "join", "axis", "keys", "index") and not (k.arg == "axis" and unparse(k.value) in ("0", "'index'"))]
            if extra:
                self.bad("concat", f"combining must not change or drop anything ({unparse(node)})", fr, node)
            return [(self.result(c, node, "combined"), False)]
        if n in ("dict", "OrderedDict") and not node.args and not node.keywords:
            return [(self.result(c, node, "out"), False)]
        if n == "len" and self.role(eng, node.args[0], fr, c) == "vals":
            return [(self.result(c, node, "size"), False)]
        if name in ("self.out_queue.put", "self.out_queue.put_nowait"):
            if self.role(eng, node.args[0], fr, c) != "out":
                self.bad("what", "the combined results must be put on the output queue", fr, node)
            return [(c.put(puts=min((c["puts"] or 0) + 1, 2)), False)]
        return None

    def assume(self, eng, test, truth, fr, c):
        k = None
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.comparators[0], ast.Constant):
            if self.role(eng, test.left, fr, c) == "size" or isinstance(test.left, ast.Call) and last(test.left.func) == "len" \
                    and self.role(eng, test.left.args[0], fr, c) == "vals":
                k = interval(test.ops[0], test.comparators[0].value)
        elif self.role(eng, test, fr, c) in ("vals", "size"):
            k = True
        if k is not None and k != truth:
            return c.put(nothing=True)
        return c

    def assign(self, eng, t, val, fr, c):
        if isinstance(t, ast.Subscript):
            if self.role(eng, t.value, fr, c) == "out":
                if self.role(eng, t.slice, fr, c) != "key" or self.role(eng, val, fr, c) != "combined":
                    self.bad("entry", f"the combined values of a key must be stored under this key ({unparse(t)} = {unparse(val)})", fr, t)
                return c.put(n=min((c["n"] or 0) + 1, 2))
            return c
        if isinstance(val, ast.DictComp):
            return self.setrole(c, eng.canon(t, fr), "out") if c["entries"] == "all" else super().assign(eng, t, val, fr, c)
        return super().assign(eng, t, val, fr, c)

    def step(self, eng, target, it, fr, c, begin, node, n):
        r = self.is_iter(eng, it, fr, c)
        if r is None:
            return c
        if begin:
            return self.bind(eng, target, r, fr, c).put(n=0, nothing=None)
        if c["n"] != 1 and not c["nothing"]:
            self.bad("entries", f"each key of the batch that has values must be combined once (path with {c['n']})", fr, node)
        return c.put(n=None, nothing=None)

    def loop_iter(self, eng, node, fr, c, begin):
        return self.step(eng, node.target, node.iter, fr, c, begin, node, 0) if isinstance(node, ast.For) else c

    def loop_done(self, eng, node, fr, c):
        return c.put(entries="all") if self.is_iter(eng, node.iter, fr, c) else c

    def comp_iter(self, eng, comp, gen, fr, c, begin):
        if gen is None:
            if isinstance(comp, ast.DictComp) and self.role(eng, comp.key, fr, c) == "key" and self.role(eng, comp.value, fr, c) == "combined":
                return c.put(n=1)
            return c
        return self.step(eng, gen.target, gen.iter, fr, c, begin, comp, 0)

    def comp_done(self, eng, comp, fr, c):
        if isinstance(comp, ast.DictComp) and self.is_iter(eng, comp.generators[0].iter, fr, c):
            return c.put(entries="all").put(last=(id(comp), "out"))
        return c


CHECKS = {"P14": p_accounting}
