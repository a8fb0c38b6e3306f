"""P20: each feature is processed from its own data only;  P23: exported tables hold the fit's own values in the requested unit"""
import ast

from rtsa import vn
from rtsa.alg import sym
from rtsa.model import AnalysisBroken, unparse
from rtsa.report import Report

from .effects import Kind, Path_, Thing, bind


class Frame(Thing):
    """a DataFrame with a known number of rows"""

    def __init__(self, name_, rows=5, **attrs):
        super().__init__(name_, **attrs)
        self.rows = rows
        self.attrs.setdefault("empty", rows == 0)
        self.attrs.setdefault("shape", vn.Seq([rows, 2], "tuple"))

    def method(self, ev, name, args, kw, env):
        if name in ("copy", "sort_index"):
            return self
        return super().method(ev, name, args, kw, env)


BASES = {"Frame": {"DataFrame", "NDFrame"}, "str": {"str"}, "bool": {"bool", "int"}, "int": {"int"}, "float": {"float"}, "DictV": {"dict", "Mapping", "MutableMapping"}}


def type_names(v):
    """names of the classes of which v is an instance, None if not known"""
    if v is None:
        return {"NoneType"}
    if isinstance(v, Frame):
        return BASES["Frame"]
    if isinstance(v, FitV):
        return {v.cls}
    if isinstance(v, vn.Seq):
        return {v.kind, "Sequence", "Iterable", "Collection"} if v.kind in ("list", "tuple") else {v.kind}
    if isinstance(v, vn.Obj) and v.cls is not None:
        return {v.cls.name}
    if isinstance(v, (str, bool, int, float, vn.DictV)):
        return BASES[type(v).__name__] if type(v).__name__ in BASES else BASES["DictV"]
    if isinstance(v, Other):
        return v.isa
    return None


class Other(Thing):
    """an object of some class that is none of the classes of interest"""
    isa = {"object"}


class FitV(vn.ModelObj):
    """a Fits object that records what is done with it"""

    def __init__(self, ev, name_, cls="Fits", **attrs):
        self.name, self.cls, self.attrs = name_, cls, attrs

    def key(self):
        return f"<{self.name}>"

    def attr(self, ev, name, env):
        if name in self.attrs:
            return self.attrs[name]
        if name == "__dict__":
            return vn.DictV(self.attrs)
        return NotImplemented

    def setattr(self, ev, name, v, env):
        ev.log.append(("set", self.name, name, v))
        self.attrs[name] = v
        if name in ("dataset", "_dataset"):
            self.attrs["dataset"] = self.attrs["_dataset"] = v
            self.attrs["$fresh"] = name == "dataset"
            self.attrs["$fitted"] = False

    def method(self, ev, name, args, kw, env):
        return ev.fit_method(self, name, list(args), dict(kw))


class Accessor(vn.ModelObj):
    """MultiFits.accessor (its semantics are established by `accessor_semantics`)"""
    name = "accessor"

    def __init__(self, fits):
        self.fits = fits

    def attr(self, ev, name, env):
        if name == "config_fits":
            return vn.DictV(dict(self.fits))
        return NotImplemented

    def method(self, ev, name, args, kw, env):
        return vn.DictV({n: Lazy(f, name, args, kw) for n, f in self.fits.items()})


class Lazy(vn.ModelObj):
    def __init__(self, fit, m, args, kw):
        self.fit, self.m, self.args, self.kw = fit, m, list(args), dict(kw)
        self.name = f"call {fit.name}.{m}"

    def call(self, ev, args, kw, env):
        return ev.fit_method(self.fit, self.m, [*args, *self.args[len(args):]], {**self.kw, **kw})


class Container(vn.ModelObj):
    name = "configs"

    def __init__(self, fits):
        self.fits = fits

    def attr(self, ev, name, env):
        if name in self.fits:
            return self.fits[name]
        if not name.startswith("_"):
            raise vn.PyRaise("AttributeError")
        return NotImplemented

    def item(self, ev, idx):
        if isinstance(idx, str):
            if idx not in self.fits:
                raise vn.PyRaise("AssertionError")
            return self.fits[idx]
        if isinstance(idx, int):
            return list(self.fits.values())[idx]
        return NotImplemented

    def iter(self, ev):
        return list(self.fits.values())


class Fn(vn.ModelObj):
    """a user function: records its calls"""

    def __init__(self, name_, ret):
        self.name, self.ret = name_, ret

    def call(self, ev, args, kw, env):
        ev.log.append(("call", self.name, list(args), dict(kw)))
        r = self.ret(ev, list(args), dict(kw)) if callable(self.ret) else self.ret
        if isinstance(r, vn.PyRaise):
            raise r
        return r


class Caller(vn.ModelObj):
    """operator.methodcaller(name, ...)"""
    name = "methodcaller"

    def __init__(self, a, k):
        self.a, self.k = list(a), dict(k)

    def call(self, ev, args, kw, env):
        return ev.fit_method(args[0], self.a[0], self.a[1:], self.k) if isinstance(args[0], FitV) and isinstance(self.a[0], str) else NotImplemented


class AttrDict(vn.ModelObj):
    """`obj.__dict__`: a live view of the attributes of an object"""

    def __init__(self, ev, obj, heap=None):
        self.ev, self.obj = ev, obj
        if heap is not None:
            self.heap = heap

    def key(self):
        return f"<__dict__ of {self.obj.path}>"

    def names(self):
        return [n for (p, n) in self.heap if p == self.obj.path]

    def as_dict(self):
        return vn.DictV({n: self.heap[(self.obj.path, n)] for n in self.names()})

    def iter(self, ev):
        return self.names()

    def contains(self, ev, x):
        return x in self.names() if isinstance(x, str) else None

    def item(self, ev, idx):
        if isinstance(idx, str):
            if idx not in self.names():
                raise vn.PyRaise("KeyError")
            return self.heap[(self.obj.path, idx)]
        return NotImplemented

    def setitem(self, ev, idx, v, env):
        if isinstance(idx, str):
            self.heap[(self.obj.path, idx)] = v
            return None
        return NotImplemented

    def delitem(self, ev, idx):
        if (self.obj.path, idx) not in self.heap:
            raise vn.PyRaise("KeyError")
        del self.heap[(self.obj.path, idx)]

    def method(self, ev, name, args, kw, env):
        d = {n: self.heap[(self.obj.path, n)] for n in self.names()}
        if name in ("items", "keys", "values", "copy", "get"):
            return ev.apply(vn.BoundM(vn.DictV(d), name), args, kw, getattr(ev, "node", None), env)
        if name == "pop":
            if args[0] in d:
                self.delitem(ev, args[0])
                return d[args[0]]
            if len(args) > 1:
                return args[1]
            raise vn.PyRaise("KeyError")
        if name == "update":
            new = dict(kw)
            for a in args:
                if not isinstance(a, vn.DictV):
                    return NotImplemented
                new.update(a.d)
            for k, v in new.items():
                self.heap[(self.obj.path, k)] = v
            return None
        return NotImplemented


class Proc(vn.Evaluator):
    def __init__(self, P):
        super().__init__(P)
        self.exact_try, self.log, self.unsure, self.fail, self.snaps = True, [], [], {}, {}
        self.made = 0
        E = self.ext
        E["builtins.isinstance"] = self.isinst
        E["builtins.issubclass"] = lambda ev, a, k: ev.unknown("issubclass")
        E["builtins.type"] = lambda ev, a, k: vn.ClassV(a[0].cls) if isinstance(a[0], vn.Obj) else sym(f"type({vn.key(a[0])})")
        E["builtins.callable"] = lambda ev, a, k: isinstance(a[0], (Fn, Lazy, vn.FuncV, vn.Partial)) or (ev.unknown("callable") if type_names(a[0]) is None else False)
        E["builtins.hasattr"] = self.has
        E["builtins.getattr"] = self.get
        E["builtins.setattr"] = self.put
        E["builtins.len"] = lambda ev, a, k: a[0].rows if isinstance(a[0], Frame) else ev.ext_plain("builtins.len", a, k)
        E["builtins.print"] = lambda ev, a, k: None
        self.opaque.update({
            "_check_monotonic_dataset_index": lambda ev, s, b, x: b.get("dataset"),
            "MultiFits.dump": lambda ev, s, b, x: ev.out("dump", "$multi", b),
            "MultiFits._get_fit_to_hdf_dict": lambda ev, s, b, x: ev.out("hdf", "$multi", b),
        })

    def getattr(self, o, n, env, node=None):
        if n == "__dict__" and isinstance(o, vn.Obj):
            return AttrDict(self, o, env["$heap"])
        return super().getattr(o, n, env, node)

    # ---- model of the classes
    @staticmethod
    def isinst(ev, a, k):
        cls = a[1].items if isinstance(a[1], vn.Seq) else [a[1]]
        tn = type_names(a[0])
        if tn is None:
            return vn.Cond(f"isinstance({vn.key(a[0])},{vn.key(a[1])})")
        return any((c.cls.name if isinstance(c, vn.ClassV) else vn.key(c).rsplit(".", 1)[-1].rstrip(">")) in tn for c in cls)

    @staticmethod
    def has(ev, a, k):
        o, n = a[0], a[1]
        if isinstance(o, (FitV, Thing)) and not isinstance(o, Frame):
            return n in o.attrs
        if isinstance(o, vn.Obj):
            if (o.path, n) in ev.heap:
                return True
            if o.cls is not None and (ev.P.find_method(o.cls, n) or ev.P.find_prop(o.cls, n)):
                return True
            return (o.path + "." + n) in ev.attrs
        return vn.Cond(f"hasattr({vn.key(o)},{n})")

    @staticmethod
    def get(ev, a, k):
        if len(a) > 2 and ev.has(ev, a, k) is False:
            return a[2]
        return ev.getattr(a[0], a[1], {"$heap": ev.heap, "$func": ev.top}, ev.node)

    @staticmethod
    def put(ev, a, k):
        if isinstance(a[0], (FitV, Thing)):
            a[0].setattr(ev, a[1], a[2], None)
            return None
        if isinstance(a[0], vn.Obj):
            ev.heap[(a[0].path, a[1])] = a[2]
            return None
        return ev.unknown("setattr")

    def wrap(self, r, env):
        if isinstance(r, tuple) and r[0] == "global" and r[2] == "log":
            return Thing("log")
        return super().wrap(r, env)

    def truth(self, v, node):
        if isinstance(v, (Thing, FitV, Fn)) and not isinstance(v, Frame):
            return True
        if isinstance(v, Frame):
            raise vn.PyRaise("ValueError")
        r = super().truth(v, node)
        if not isinstance(r, bool):
            self.unsure.append(unparse(node)[:80] if isinstance(node, ast.AST) else str(node))
        return r

    # ---- recorded operations
    def fails(self, what):
        if self.fail.get(what):
            raise vn.PyRaise(self.fail[what])

    def fit_method(self, fit, name, args, kw):
        f = self.P.find_method(self.P.cls("Fits"), name)
        if f is None:
            raise vn.PyRaise("AttributeError")
        ps = f.params() if f.is_static else f.params()[1:]
        b = dict(zip(ps, args))
        b.update(kw)
        if name == "_clear_cache":
            fit.attrs["$fresh"] = True
            return None
        if name == "reinit_object":
            return self.reinit(fit, b)
        if name == "performfit":
            self.log.append(("performfit", fit.name, dict(fit.attrs), b))
            self.fails("performfit")
            fit.attrs["$fitted"] = True
            return None
        if name == "dump":
            return self.out("dump", fit, b)
        if name == "_get_fit_to_hdf_dict":
            return self.out("hdf", fit, b)
        self.log.append(("other", fit.name, name, b))
        return sym(f"{fit.name}.{name}()")

    def reinit(self, fit, b):
        self.made += 1
        a = {k: v for k, v in fit.attrs.items() if not k.startswith("$")}
        if "config_name" in a:
            del a["config_name"]
        a.update({k: v for k, v in b.items() if k not in ("share_fnevals", "share_auxdata")})
        a["reader_arg"] = vn.DictV({})
        a["$fresh"], a["$fitted"] = True, False
        if b.get("share_auxdata", True) is not True:
            a["aux_data"] = None
        if "dataset" in b:
            a["_dataset"] = b["dataset"]
        n = FitV(self, f"new{self.made}", **a)
        self.new = getattr(self, "new", []) + [n]
        self.log.append(("reinit", fit.name, n.name, b))
        return n

    def out(self, what, fit, b):
        if fit == "$multi":
            at = {k: v for (o, k), v in self.heap.items() if o == self.multi}
            snap = {n: dict(f.attrs) for n, f in self.configs.items()}
        else:
            at, snap = dict(fit.attrs), {fit.name: dict(fit.attrs)}
        self.log.append((what, fit if fit == "$multi" else fit.name, dict(b), at, snap))
        self.fails(what)
        return vn.DictV({"$token": what + ":" + (fit if fit == "$multi" else fit.name)}) if what == "hdf" else None


OLD = Frame("old data")
OLDAUX = Frame("old aux")


def same(a, b):
    if isinstance(a, vn.Unknown) or isinstance(b, vn.Unknown):
        return None
    if a is b or vn.key(a) == vn.key(b):
        return True
    if isinstance(a, (vn.Ite, vn.Cond)) or isinstance(b, (vn.Ite, vn.Cond)):
        return None
    return False


READS = {
    "frame": lambda d, a, b: (d, None),
    "frame+aux": lambda d, a, b: (vn.Seq([d, a], "tuple"), a),
    "list": lambda d, a, b: (vn.Seq([d, a], "list"), a),
    "frame+2aux": lambda d, a, b: (vn.Seq([d, a, b], "tuple"), vn.Seq([a, b], "tuple")),
    "frame+None": lambda d, a, b: (vn.Seq([d, None], "tuple"), None),
}


def scenario(P, kind, read, dump, hdfkw, fail=None, handler=True):
    """abstract run of _evalfunc for one feature; all attributes hold the values of a previous feature before"""
    cls = P.cls("RTprocess")
    f = P.find_method(cls, "_evalfunc")
    if f is None:
        raise AnalysisBroken("RTprocess._evalfunc not found")
    ev = Proc(P)
    ev.top = f
    data, aux, aux2 = Frame("data"), Frame("aux"), Frame("aux2")
    arg = vn.DictV({"ID": "f7", "_RT1_ID_num": 7})
    state = dict(dataset=OLD, _dataset=OLD, aux_data=OLDAUX, reader_arg=vn.DictV({"ID": "old", "old": 1}), ID="old ID", int_Q=False)
    state["$fresh"], state["$fitted"] = True, True
    heap = {}
    if kind == "fits":
        ev.parent = FitV(ev, "parent", **dict(state, aux_data=None))
        parent, ev.configs = ev.parent, {}
    else:
        ev.multi = "multi"
        ev.configs = {n: FitV(ev, n, config_name=n, **state) for n in ("c1", "c2")}
        parent = vn.Obj("multi", P.cls("MultiFits"))
        for k, v in dict(_dataset=OLD, _aux_data=OLDAUX, _reader_arg=vn.DictV({"ID": "old", "old": 1}), config_names=vn.Seq(["c1", "c2"]), configs=Container(ev.configs), _accessor=Accessor(ev.configs)).items():
            heap[("multi", k)] = v
    if read in READS:
        ret, want_aux = READS[read](data, aux, aux2)
    else:
        ret, want_aux = {"raises": vn.PyRaise("ReadError"), "None": None, "empty": Frame("data", rows=0), "wrong": vn.DictV({"a": 1}), "wrong tuple": vn.Seq([1, 2], "tuple")}[read], None
    names = vn.DictV({"feature_id": "f7", "filename": "f7.dump"})
    token = Thing("handled")
    exc = Fn("exceptfunc", token) if handler else None
    ev.fail = {fail: "FitError"} if fail else {}
    proc = Thing("proc_cls", reader=Fn("reader", ret), get_names_ids=Fn("names", lambda e, a, k: names), exceptfunc=exc)
    for k, v in dict(parent_fit=parent, proc_cls=proc, _dump_fit=dump, dumppath=Path_(("dump",)), hdf_export_kwargs=vn.DictV(dict(hdfkw))).items():
        heap[("self", k)] = v
    try:
        r, _ = ev.run(f, args=[arg], selfv=vn.Obj("self", cls), heap=heap)
        raised = "raise" if r is vn.RAISED else None
    except vn.PyRaise as e:
        r, raised = None, e.kind
    return dict(ev=ev, ret=r, raised=raised, data=data, aux=want_aux, arg=arg, token=token, f=f, parent=parent)


def evaluate(P, rep):
    n_ok = 0
    for kind in ("fits", "multi"):
        for read in READS:
            for dump in (True, False):
                for hk in ({}, {"save_data": False, "save_auxdata": True}):
                    s = scenario(P, kind, read, dump, hk)
                    judge(P, rep, s, kind, f"{kind}:{read}:{'dump' if dump else 'no dump'}" + (":export options" if hk else ""), dump, hk)
                    n_ok += 1
    for kind in ("fits", "multi"):
        fails = [(r, None) for r in ("raises", "None", "empty", "wrong", "wrong tuple")] + [("frame", x) for x in ("performfit", "dump", "hdf")]
        for read, fail in fails:
            for handler, dump in ((True, True), (True, False), (False, True)):
                if fail == "dump" and not dump:
                    continue
                s = scenario(P, kind, read, dump, {}, fail, handler)
                ev = s["ev"]
                rep.analysed |= ev.visited
                where = f"{s['f'].file}:{s['f'].qual}"
                nm = f"{kind}:{'reader ' + read if not fail else fail + ' raises'}:{'handler' if handler else 'no handler'}{'' if dump else ':no dump'}"
                if ev.unsure:
                    rep.undecided(nm, f"conditions left open: {ev.unsure[:3]}", where)
                    continue
                if handler:
                    calls = [e for e in ev.log if e[0] == "call" and e[1] == "exceptfunc"]
                    good = s["raised"] is None and s["ret"] is s["token"] and len(calls) == 1 and len(calls[0][2]) == 2 and calls[0][2][1] is s["arg"]
                    rep.check(good, nm, f"the error is given to exceptfunc together with the reader-arguments of the feature, and its return-value is the result (returned {vn.key(s['ret'])[:60]}, raised {s['raised']}, calls {len(calls)})", where)
                else:
                    rep.check(s["raised"] is not None, nm, f"the error is raised if there is no exceptfunc (returned {vn.key(s['ret'])[:60]})", where)
                if not fail:
                    done = [e for e in ev.log if e[0] in ("performfit", "hdf", "dump")]
                    rep.check(not done, nm + ":nothing fitted", "no fit is performed without data", where)


def judge(P, rep, s, kind, nm, dump, hk):
    ev, where = s["ev"], f"{s['f'].file}:{s['f'].qual}"
    rep.analysed |= ev.visited
    if s["raised"] or ev.unsure or isinstance(s["ret"], vn.Unknown):
        (rep.bad if s["raised"] and not ev.unsure else rep.undecided)(nm, f"raised {s['raised']}, left open {ev.unsure[:3]}, {getattr(s['ret'], 'why', '')}", where)
        return
    log = ev.log
    hdf = [e for e in log if e[0] == "hdf"]
    if len(hdf) != 1 or not (isinstance(s["ret"], vn.DictV) and s["ret"].d.get("$token") == "hdf:" + hdf[0][1]):
        calls = [e for e in log if e[0] == "call" and e[1] == "exceptfunc"]
        rep.check(False if calls or len(hdf) > 1 or s["ret"] is None else None, nm + ":result", f"the returned value is the table representation of the fit (returned {vn.key(s['ret'])[:80]})", where)
        return
    _, who, b, at, snap = hdf[0]
    # -- the objects that were fitted
    if kind == "fits":
        if who == "parent":
            rep.bad(nm + ":object", "the parent fit itself is used for the feature", where)
            return
        rep.check(not any(e[0] in ("set", "performfit") and e[1] == "parent" for e in log), nm + ":parent", "the parent fit is not changed", where)
        targets = [who]
    else:
        rep.check(who == "$multi", nm + ":object", "all configs are stored", where)
        targets = list(ev.configs)
    for t in targets:
        fits = [e for e in log if e[0] == "performfit" and e[1] == t]
        rep.check(len(fits) == 1, nm + f":{t}:fits", f"exactly one fit is performed ({len(fits)})", where)
        for e in fits:
            rep.check(same(e[2].get("dataset"), s["data"]), nm + f":{t}:data", f"the fit uses the dataset of the feature ({vn.key(e[2].get('dataset'))[:60]})", where)
            rep.check(e[2].get("$fresh") is True, nm + f":{t}:caches", "no cached values of the previous dataset are used", where)
        a = snap[t]
        rep.check(a.get("$fitted") is True and same(a.get("dataset"), s["data"]), nm + f":{t}:stored data", "the stored results belong to the dataset of the feature", where)
        if not (kind == "fits" and s["aux"] is None):
            rep.check(same(a.get("aux_data"), s["aux"]), nm + f":{t}:aux", f"auxiliary data of the feature: {vn.key(a.get('aux_data'))[:60]}, returned by the reader: {vn.key(s['aux'])[:60]}", where)
        rep.check(a.get("reader_arg") is s["arg"] or same(a.get("reader_arg"), s["arg"]), nm + f":{t}:reader_arg", f"reader-arguments of the feature ({vn.key(a.get('reader_arg'))[:60]})", where)
        rep.check(same(a.get("ID"), "f7"), nm + f":{t}:ID", f"ID of the feature ({vn.key(a.get('ID'))[:60]})", where)
    if kind == "multi":
        for k, w in (("_dataset", s["data"]), ("_aux_data", s["aux"]), ("_reader_arg", s["arg"])):
            rep.check(same(at.get(k), w), nm + ":container" + k, f"{vn.key(at.get(k))[:60]}", where)
    rep.check(same(b.get("ID"), 7), nm + ":number", f"the tables are indexed with the number of the feature ({vn.key(b.get('ID'))})", where)
    for k, v in hk.items():
        rep.check(same(b.get(k), v), nm + ":option " + k, f"{vn.key(b.get(k))}", where)
    dumps = [e for e in log if e[0] == "dump"]
    rep.check(len(dumps) == int(dump), nm + ":dump", f"a dump is written only if requested ({len(dumps)})", where)
    for e in dumps:
        p = Path_.of(e[2].get("path"))
        rep.check(None if p is None else p.parts_ == ("dump", "dumps", "f7.dump"), nm + ":dump path", f"{vn.key(e[2].get('path'))[:80]}", where)
        rep.check(e[1] == who, nm + ":dump object", "the fitted object is dumped", where)
        for t in targets:
            a = e[4].get(t, {})
            rep.check(a.get("$fitted") is True and same(a.get("dataset"), s["data"]), nm + f":{t}:dump content", "the dump holds the results of the feature", where)
            rep.check(same(a.get("reader_arg"), s["arg"]) and same(a.get("ID"), "f7") and (same(a.get("aux_data"), s["aux"]) if not (kind == "fits" and s["aux"] is None) else True), nm + f":{t}:dump attributes", "the dump holds the ID, reader-arguments and auxiliary data of the feature", where)


def accessor_semantics(P, rep):
    """config_fits, lazy and _applyit of the accessor: each callback calls the method of its own config with the given arguments"""
    cls = P.cls("_MultiAccessors")
    for n in ("_applyit", "lazy"):
        if P.find_method(cls, n) is None:
            rep.assume("the accessor of MultiFits calls the method of each config with the given arguments")
            return
    f = P.find_method(cls, "_applyit")
    where = f"{f.file}:{f.qual}"
    for args, kw, cargs, ckw in (([], {}, [], {}), ([1], {"print_progress": "P"}, [], {}), ([1, 2], {"print_progress": "P"}, [8], {"print_progress": "Q"})):
        ev = Proc(P)
        ev.top = f
        ev.configs = {n: FitV(ev, n, config_name=n) for n in ("c1", "c2")}
        ev.fit_method = lambda fit, name, a, k, ev=ev: ev.log.append((fit.name, name, tuple(vn.key(x) for x in a), tuple(sorted((x, vn.key(y)) for x, y in k.items())))) or sym(f"r_{fit.name}")
        ev.ext["functools.wraps"] = lambda e, a, k: Fn("wraps", lambda e2, a2, k2: a2[0])
        ev.ext["operator.methodcaller"] = lambda e, a, k: Caller(a, k)
        o = vn.Obj("self", cls)
        heap = {("self", "_FitContainer"): Container(ev.configs)}
        nm = f"accessor:{len(args)} arguments:{'called with others' if cargs or ckw else 'called without'}"
        r = ev.call_func(vn.FuncV(f, o), ["dummy"] + args, dict(kw), None, heap)
        rep.analysed |= ev.visited
        if not isinstance(r, vn.DictV) or sorted(r.d) != ["c1", "c2"]:
            rep.check(False if isinstance(r, vn.DictV) else None, nm, f"one callback per config: {vn.key(r)[:80]}", where)
            continue
        ev.log.clear()
        for n in ("c1", "c2"):
            v = ev.apply(r.d[n], list(cargs), dict(ckw), None, {"$heap": heap, "$func": f})
            want = (n, "dummy", tuple(vn.key(x) for x in [*cargs, *args[len(cargs):]]), tuple(sorted((x, vn.key(y)) for x, y in {**kw, **ckw}.items())))
            rep.check(True if ev.log and ev.log[-1] == want and len(ev.log) == 1 and same(v, sym(f"r_{n}")) else None if isinstance(v, vn.Unknown) else False, nm + ":" + n, f"calls {ev.log}, expected {want}", where)
            ev.log.clear()


class Index(Thing):
    pass


class Table_(Frame):
    """DataFrame constructed from data and an index"""

    def __init__(self, data, index, name=None):
        super().__init__("table")
        self.data = data
        self.attrs["index"] = index if isinstance(index, Index) else Index("index", vals=index, name=name)

    def setattr(self, ev, name, v, env):
        if name == "index" and not isinstance(v, Index):
            v = Index("index", vals=v.attrs.get("vals") if isinstance(v, Thing) else v, name=v.attrs.get("name") if isinstance(v, Thing) else None)
        super().setattr(ev, name, v, env)

    def method(self, ev, name, args, kw, env):
        if name == "rename_axis":
            n = args[0] if args else kw.get("index", kw.get("mapper"))
            return Table_(self.data, self.attrs["index"].attrs["vals"], n)
        if name == "set_axis" and kw.get("axis", args[1] if len(args) > 1 else 0) in (0, "index"):
            return Table_(self.data, args[0] if args else kw.get("labels"))
        return super().method(ev, name, args, kw, env)


class Post(Proc):
    """evaluator for the functions that handle stored fits"""

    def __init__(self, P):
        super().__init__(P)
        self.ext["pandas.DataFrame"] = lambda ev, a, k: Table_(bind(a, k, "data").get("data"), bind(a, k, "data", "index").get("index"))
        self.ext["pandas.Index"] = lambda ev, a, k: Index("index", vals=bind(a, k, "data").get("data"), name=k.get("name"))
        self.ext["pandas.DataFrame.from_records"] = lambda ev, a, k: Table_(a[0].items[0] if isinstance(a[0], vn.Seq) else a[0], k.get("index"))
        self.ext["builtins.dict"] = self.mkdict

    @staticmethod
    def mkdict(ev, a, k):
        if a and isinstance(a[0], (vn.Seq, vn.IterV)):
            items = a[0].items
            if all(isinstance(x, vn.Seq) and len(x.items) == 2 and isinstance(x.items[0], str) for x in items):
                return vn.DictV({**{x.items[0]: x.items[1] for x in items}, **k})
        return ev.ext_plain("builtins.dict", a, k) if a and not isinstance(a[0], vn.DictV) else vn.DictV({**(a[0].d if a else {}), **k})

    def fit_method(self, fit, name, args, kw):
        if fit.cls == "MultiFits" and name == "apply":
            f, kw = (args[0], kw) if args else (kw.pop("f"), kw)
            use = args[1] if len(args) > 1 else kw.pop("use_config", None)
            kw.pop("use_config", None)
            fits = fit.attrs["$fits"]
            if use is None:
                names = list(fits)
            elif isinstance(use, str):
                names = [use]
            elif isinstance(use, vn.Seq) and use.kind == "list":
                names = use.items
            else:
                raise vn.PyRaise("AssertionError")
            out = []
            for n in names:
                if n not in fits:
                    raise vn.PyRaise("KeyError")
                out.append(vn.Seq([n, self.apply(f, [], {"fit": fits[n], **kw}, None, {"$heap": self.heap, "$func": self.top})], "tuple"))
            return vn.IterV(out)
        return super().fit_method(fit, name, args, kw)


def multi_fit(ev, name_, names, **attrs):
    fits = {n: FitV(ev, f"{name_}.{n}", config_name=n, **{k: v for k, v in attrs.items() if k != "$own"}) for n in names}
    m = FitV(ev, name_, "MultiFits", config_names=vn.Seq(list(names)), configs=Container(fits), accessor=Accessor(fits), **attrs)
    m.attrs["$fits"] = fits
    return m, fits


USE = {"None": None, "list": vn.Seq(["c2"], "list"), "name": "c2", "all": vn.Seq(["c1", "c2"], "list"), "direct": "from_postprocess"}


def stored(P, rep):
    """_finalout_reader: the fit with the requested ID is loaded, it gets the number of the feature and its own fn-coefficients"""
    cls = P.cls("RTprocess")
    f = P.find_method(cls, "_finalout_reader")
    if f is None:
        raise AnalysisBroken("RTprocess._finalout_reader not found")
    where = f"{f.file}:{f.qual}"
    for kind in ("fits", "multi"):
        for use in USE:
            for parent in (True, False):
                for load in ("ok", "missing", "error"):
                    for num in (7, None):
                        ev = Post(P)
                        ev.top = f
                        a = dict(reader_arg=vn.DictV({"ID": "f7"}), int_Q=True, _fnevals_input=None)
                        if kind == "fits":
                            fit, fits = FitV(ev, "stored", **a), {}
                            par = FitV(ev, "parent", int_Q=True, _fnevals_input="fn:parent")
                        else:
                            fit, fits = multi_fit(ev, "stored", ("c1", "c2"), **a)
                            par, pf = multi_fit(ev, "parent", ("c2", "c1"))
                            for n, x in pf.items():
                                x.attrs.update(int_Q=n == "c2" or use != "all", _fnevals_input="fn:" + n)
                        ret = {"ok": fit, "missing": None, "error": vn.PyRaise("KeyError")}[load]

                        heap = {("self", "_useres"): Thing("res", load_fit=Fn("load", ret)), ("self", "proc_cls"): Thing("proc")}
                        if parent:
                            heap[("self", "parent_fit")] = par
                        arg = vn.DictV({"ID": "f7", **({"_RT1_ID_num": num} if num is not None else {})})
                        nm = f"stored:{kind}:{use}:{'parent' if parent else 'no parent'}:{load}" + ("" if num else ":no number")
                        try:
                            r, _ = ev.run(f, args=[arg, USE[use]], selfv=vn.Obj("self", cls), heap=heap)
                        except vn.PyRaise as e:
                            rep.bad(nm, f"raises {e.kind}", where)
                            continue
                        rep.analysed |= ev.visited
                        if ev.unsure or isinstance(r, vn.Unknown):
                            rep.undecided(nm, f"left open: {ev.unsure[:3]} {vn.key(r)[:60]}", where)
                            continue
                        loads = [e for e in ev.log if e[0] == "call" and e[1] == "load"]
                        rep.check(len(loads) == 1 and [*loads[0][2], *loads[0][3].values()][:1] == ["f7"], nm + ":id", f"the fit with the requested ID is loaded ({loads})"[:200], where)
                        if load != "ok":
                            rep.check(r is None, nm, "a fit that can not be loaded is skipped", where)
                            continue
                        rep.check(r is fit, nm + ":fit", f"the loaded fit is returned ({vn.key(r)[:60]})", where)
                        for o in [fit, *fits.values()]:
                            rep.check(same(o.attrs.get("_RT1_ID_num"), num), nm + f":{o.name}:number", f"number of the feature: {vn.key(o.attrs.get('_RT1_ID_num'))}", where)
                        if not parent:
                            continue
                        if kind == "fits":
                            rep.check(fit.attrs.get("_fnevals_input") == "fn:parent", nm + ":fn", f"fn-coefficients of the parent fit ({vn.key(fit.attrs.get('_fnevals_input'))})", where)
                        else:
                            for n, o in fits.items():
                                used = USE[use] in (None, "from_postprocess") or n == USE[use] or isinstance(USE[use], vn.Seq) and n in USE[use].items
                                v = o.attrs.get("_fnevals_input")
                                if used and pf[n].attrs["int_Q"]:
                                    rep.check(v == "fn:" + n, nm + f":fn {n}", f"fn-coefficients of the same config ({vn.key(v)})", where)
                                else:
                                    rep.check(v in (None, "fn:" + n), nm + f":fn {n}", f"no fn-coefficients of another config ({vn.key(v)})", where)


def post(P, rep):
    """_run_postprocess: the function is applied to the requested configs of the loaded fit; MultiFits.apply"""
    cls = P.cls("RTprocess")
    f = P.find_method(cls, "_run_postprocess")
    if f is None:
        raise AnalysisBroken("RTprocess._run_postprocess not found")
    where = f"{f.file}:{f.qual}"
    for kind in ("fits", "named", "multi"):
        for use in USE:
            for given in (True, False):
                for outcome in ("ok", "error", "error unhandled", "own table"):
                    ev = Post(P)
                    ev.top = f
                    ra = vn.DictV({"ID": "f7"})
                    a = dict(reader_arg=ra, _RT1_ID_num=7)
                    if kind == "multi":
                        fit, fits = multi_fit(ev, "stored", ("c1", "c2"), **a)
                    else:
                        fit, fits = FitV(ev, "stored", **a), {}
                        if kind == "named":
                            fit.attrs["config_name"] = "cx"
                    direct = use == "direct"
                    own = Frame("own")
                    vals = {}

                    def ret(ev, a, k, vals=vals, own=own, fits=fits, fit=fit):
                        x = a[0] if a else k.get("fit")
                        if outcome.startswith("error"):
                            raise vn.PyRaise("PostError")
                        n = x.name if isinstance(x, FitV) else "?"
                        if direct and (x is fit):
                            return vn.DictV({"d": vals.setdefault(n, Frame("result of " + n)), **({"const__reader_arg": own} if outcome == "own table" else {})})
                        return vals.setdefault(n, Frame("result of " + n))
                    mine, default = Fn("given", ret), Fn("default", ret)
                    token = Thing("handled")
                    proc = Thing("proc", postprocess=default, exceptfunc=Fn("exceptfunc", token) if outcome != "error unhandled" else None)
                    nm = f"post:{kind}:{use}:{'function given' if given else 'default function'}:{outcome}"
                    if outcome == "own table" and not (direct and (given or kind != "multi")):
                        continue
                    heap = {("self", "proc_cls"): proc}
                    try:
                        r, _ = ev.run(f, args=[fit, USE[use], mine if given else None], selfv=vn.Obj("self", cls), heap=heap)
                        raised = r is vn.RAISED
                    except vn.PyRaise as e:
                        r, raised = None, True
                    rep.analysed |= ev.visited
                    if ev.unsure or isinstance(r, vn.Unknown):
                        rep.undecided(nm, f"left open: {ev.unsure[:3]} {vn.key(r)[:60]}", where)
                        continue
                    calls = [e for e in ev.log if e[0] == "call"]
                    if outcome == "error unhandled":
                        rep.check(raised, nm, "the error is raised if there is no exceptfunc", where)
                        continue
                    if outcome == "error":
                        ex = [e for e in calls if e[1] == "exceptfunc"]
                        rep.check(not raised and r is token and len(ex) == 1 and len(ex[0][2]) == 2 and ex[0][2][1] is ra, nm, "the error is given to exceptfunc together with the reader-arguments of the feature", where)
                        continue
                    if raised or not isinstance(r, vn.DictV):
                        rep.check(False if raised or r is token else None, nm, f"the results are returned ({vn.key(r)[:60]})", where)
                        continue
                    fc = [e for e in calls if e[1] in ("given", "default")]
                    rep.check(all(e[1] == ("given" if given else "default") for e in fc), nm + ":function", f"{[e[1] for e in fc]}", where)
                    on = [(e[2][0] if e[2] else e[3].get("fit")) for e in fc]
                    if direct and not (kind == "multi" and not given):
                        want, keys = [fit], {"d": "stored"}
                    elif kind == "multi":
                        sel = [n for n in fits if USE[use] in (None, "from_postprocess") or n == USE[use] or isinstance(USE[use], vn.Seq) and n in USE[use].items]
                        want, keys = [fits[n] for n in sel], {n: f"stored.{n}" for n in sel}
                    else:
                        want, keys = [fit], {"cx" if kind == "named" else "default": "stored"}
                    rep.check(sorted(x.name if isinstance(x, FitV) else "?" for x in on) == sorted(x.name for x in want), nm + ":applied", f"applied once to {[x.name for x in want]}: {[getattr(x, 'name', '?') for x in on]}", where)
                    got = {k: v for k, v in r.d.items() if k != "const__reader_arg"}
                    rep.check({k: v.name for k, v in got.items() if isinstance(v, Frame)} == {k: "result of " + v for k, v in keys.items()} and len(got) == len(keys), nm + ":results", f"{ {k: vn.key(v)[:30] for k, v in got.items()} }", where)
                    t = r.d.get("const__reader_arg")
                    if outcome == "own table":
                        rep.check(t is own, nm + ":own reader_arg table", vn.key(t)[:60], where)
                        continue
                    if not isinstance(t, Table_):
                        rep.check(False if t is None else None, nm + ":reader_arg", f"the reader-arguments are stored ({vn.key(t)[:60]})", where)
                        continue
                    ix = t.attrs["index"].attrs
                    iv = ev.concrete(ix.get("vals")) if ix.get("vals") is not None else None
                    rep.check(same(t.data, ra), nm + ":reader_arg values", vn.key(t.data)[:60], where)
                    rep.check(None if iv is None and ix.get("vals") is not None else iv == [7] and ix.get("name") == "ID", nm + ":reader_arg index", f"index {vn.key(ix.get('vals'))[:40]} named {ix.get('name')}", where)
    m = P.cls("MultiFits")
    g = P.find_method(m, "apply")
    if g is None:
        rep.assume("MultiFits.apply applies the function to the requested configs")
        return
    where = f"{g.file}:{g.qual}"
    for use in ("None", "list", "name", "all"):
        ev = Post(P)
        ev.top = g
        fits = {n: FitV(ev, n, config_name=n) for n in ("c1", "c2")}
        fn = Fn("f", lambda e, a, k: Frame("result of " + (a[0] if a else k["fit"]).name))
        heap = {("multi", "_accessor"): Accessor(fits), ("multi", "configs"): Container(fits), ("multi", "config_names"): vn.Seq(["c1", "c2"])}
        o = vn.Obj("multi", m)
        r = ev.call_func(vn.FuncV(g, o), [fn], {"use_config": USE[use], "x": 3}, None, heap)
        rep.analysed |= ev.visited
        c = r.items if isinstance(r, vn.IterV) else ev.concrete(r)
        sel = ["c1", "c2"] if use in ("None", "all") else ["c2"]
        nm = f"apply:{use}"
        if c is None or ev.unsure:
            rep.undecided(nm, vn.key(r)[:80], where)
            continue
        rep.check([(x.items[0], x.items[1].name) for x in c if isinstance(x, vn.Seq) and len(x.items) == 2 and isinstance(x.items[1], Frame)] == [(n, "result of " + n) for n in sel], nm, f"{[vn.key(x)[:40] for x in c]}", where)
        rep.check(all(e[3].get("x") == 3 for e in ev.log if e[0] == "call"), nm + ":arguments", "the arguments are forwarded", where)


def p_feature(P, tier):
    rep = Report("P20", tier, "abstract run of the processing of a single feature (RTprocess._evalfunc), of the re-loading of stored fits and of the post-processing for all kinds of reader returns, parents and failures")
    evaluate(P, rep)
    accessor_semantics(P, rep)
    stored(P, rep)
    post(P, rep)
    rep.minimum = 200
    return rep


CHECKS = {"P20": p_feature}
