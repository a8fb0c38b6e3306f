"""P23: exported tables hold the values of the fit in the requested unit"""
import ast

from rtsa import vn
from rtsa.alg import sym
from rtsa.model import AnalysisBroken, unparse
from rtsa.report import Report

from .effects import Path_, Thing, bind
from .process import BASES, FitV, Fn, Index, Proc, same
from .process import type_names as base_names


class Ser(vn.ModelObj):
    """a column: name, value (term), index"""

    def __init__(self, val, name_=None, index="dates"):
        self.val, self.col, self.index = val, name_, index

    def key(self):
        return f"<series {self.col}:{vn.key(self.val)}>"

    def map(self, g):
        return Ser(g(self.val), self.col, self.index)

    def binop(self, ev, op, other, swapped):
        if isinstance(other, (Ser, int, float)) or vn.isnum(other):
            o = other.val if isinstance(other, Ser) else other
            return self.map(lambda x: ev.binop(op, o, x, None) if swapped else ev.binop(op, x, o, None))
        return NotImplemented

    def attr(self, ev, name, env):
        if name == "name":
            return self.col
        if name == "index":
            return Thing("index")
        if name in ("values",):
            return self.val
        return NotImplemented

    def setattr(self, ev, name, v, env):
        if name == "name":
            self.col = v

    def method(self, ev, name, args, kw, env):
        if name in ("copy", "astype", "squeeze"):
            return self
        if name == "to_frame":
            return Tab({args[0] if args else kw.get("name", self.col): self.val})
        if name == "rename":
            return Ser(self.val, args[0] if args else kw.get("index"), self.index)
        if name in ("apply", "pipe", "transform"):
            return ev.apply(args[0], [self], {}, ev.node, env)
        return NotImplemented

    def item(self, ev, idx):
        return sym(f"{vn.key(self.val)}[{vn.key(idx)}]")


class Tab(vn.ModelObj):
    """a table: column values and the levels that are prepended to its index"""

    def __init__(self, cols, levels=(), index=None, iname=None, owner=None):
        self.cols, self.levels, self.idx, self.owner = dict(cols), list(levels), index, owner
        self.iattr = Index("index", vals=index, name=iname)
        self.cattr = Thing("columns")

    def key(self):
        return "<table " + ",".join(f"{k}:{vn.key(v)}" for k, v in self.cols.items()) + ">"

    def map(self, g):
        return Tab({k: g(v) for k, v in self.cols.items()}, self.levels, self.idx)

    def binop(self, ev, op, other, swapped):
        if isinstance(other, (int, float)) or vn.isnum(other):
            return self.map(lambda x: ev.binop(op, other, x, None) if swapped else ev.binop(op, x, other, None))
        return NotImplemented

    def attr(self, ev, name, env):
        if name == "index":
            return self.iattr
        if name == "columns":
            return Cols(self)
        if name == "empty":
            return not self.cols
        if name in self.cols:
            return Ser(self.cols[name], name)
        return NotImplemented

    def setattr(self, ev, name, v, env):
        if name == "index":
            self.iattr = v if isinstance(v, Index) else Index("index", vals=v, name=None)
            return
        if self.owner is not None:
            ev.problems.append(f"{self.owner}.{name} is changed")

    def item(self, ev, idx):
        if isinstance(idx, str):
            if idx not in self.cols:
                raise vn.PyRaise("KeyError")
            return Ser(self.cols[idx], idx)
        c = ev.concrete(idx)
        if c is not None and all(isinstance(x, str) for x in c):
            if any(x not in self.cols for x in c):
                raise vn.PyRaise("KeyError")
            return Tab({x: self.cols[x] for x in c}, self.levels, self.idx)
        return NotImplemented

    def setitem(self, ev, idx, v, env):
        if self.owner is not None:
            ev.problems.append(f"{self.owner}[{vn.key(idx)}] is changed")
        if isinstance(idx, str):
            self.cols[idx] = v.val if isinstance(v, Ser) else next(iter(v.cols.values())) if isinstance(v, Tab) and len(v.cols) == 1 else v
            return None
        return NotImplemented

    def iter(self, ev):
        return list(self.cols)

    def contains(self, ev, x):
        return x in self.cols if isinstance(x, str) else None

    def method(self, ev, name, args, kw, env):
        if name == "copy":
            return Tab(self.cols, self.levels, self.idx)
        if name == "keys":
            return vn.Seq(list(self.cols), "keys")
        if name == "items":
            return vn.Seq([vn.Seq([k, Ser(v, k)], "tuple") for k, v in self.cols.items()])
        if name == "get":
            return Ser(self.cols[args[0]], args[0]) if args[0] in self.cols else (args[1] if len(args) > 1 else None)
        if name == "assign":
            t = Tab({**self.cols, **{k: v.val if isinstance(v, Ser) else v for k, v in kw.items()}}, self.levels, self.idx)
            return t
        if name == "rename_axis":
            n = args[0] if args else kw.get("index", kw.get("mapper"))
            t = Tab(self.cols, self.levels, self.idx)
            t.iattr = Index("index", vals=self.iattr.attrs.get("vals"), name=n if "columns" not in kw or args or "index" in kw else self.iattr.attrs.get("name"))
            return t
        if name == "drop":
            c = ev.concrete(kw.get("columns", args[0] if args else None))
            if c is not None:
                return Tab({k: v for k, v in self.cols.items() if k not in c}, self.levels, self.idx)
        if name in ("apply", "pipe", "transform"):
            return ev.apply(args[0], [self], {}, ev.node, env)
        if name == "join" and isinstance(args[0], (Tab, Ser)):
            o = args[0]
            return Tab({**self.cols, **(o.cols if isinstance(o, Tab) else {o.col: o.val})}, self.levels, self.idx)
        return NotImplemented


class Cols(Thing):
    def __init__(self, tab):
        super().__init__("columns")
        self.tab = tab

    def iter(self, ev):
        return list(self.tab.cols)

    def contains(self, ev, x):
        return x in self.tab.cols if isinstance(x, str) else None




# what is known about the parameters of the fit
DEFS = {
    "tau": (True, 0.1, "manual", 0.01, 1.0, False),
    "N": (True, 0.1, "index", 0.01, 1.0, False),
    "sm2": (True, 0.1, "30D", 0.01, 1.0, False),
    "bsf": (True, 0.1, "D + 30D", 0.01, 1.0, True),
    "t1": (True, 0.1, 3, 0.01, 1.0, False),
    "omega": (True, 0.2, None, 0.01, 1.0, False),
    "t_v": (False, 0.7, None, None, None, None),
    "aux": (False, "auxiliary", None, None, None, None),
}
MODEL = ("tot", "surf", "vol", "inter")


class Var(vn.ModelObj):
    def __init__(self, name_, spec):
        self.name, self.spec = name_, spec
        self.d = dict(zip(("fitQ", "val", "freq", "minval", "maxval", "interpQ"), spec))

    def key(self):
        return f"<parameter {self.name}>"

    def attr(self, ev, name, env):
        return self.d[name] if name in self.d else NotImplemented

    def item(self, ev, idx):
        if isinstance(idx, int):
            p = [self.d["fitQ"], self.d["val"], self.d["freq"], vn.Seq([vn.Seq([self.d["minval"]]), vn.Seq([self.d["maxval"]])], "tuple"), self.d["interpQ"]]
            return p[idx]
        return self.d.get(idx, NotImplemented)

    def setattr(self, ev, name, v, env):
        ev.problems.append(f"defdict.{self.name}.{name} is changed")

    def setitem(self, ev, idx, v, env):
        ev.problems.append(f"defdict.{self.name} is changed")

    def iter(self, ev):
        return [self.item(ev, i) for i in range(5)]


class Defs(vn.ModelObj):
    name = "defdict"

    def __init__(self):
        self.vars = {k: Var(k, v) for k, v in DEFS.items()}

    def iter(self, ev):
        return list(self.vars)

    def contains(self, ev, x):
        return x in self.vars if isinstance(x, str) else None

    def item(self, ev, idx):
        if isinstance(idx, str):
            if idx not in self.vars:
                raise vn.PyRaise("AttributeError")
            return self.vars[idx]
        return NotImplemented

    def attr(self, ev, name, env):
        if name in self.vars:
            return self.vars[name]
        if name == "_variables":
            return vn.Seq(list(self.vars))
        if name in ("var", "_vars"):
            return self
        return NotImplemented

    def method(self, ev, name, args, kw, env):
        if name == "items":
            return vn.Seq([vn.Seq([k, v], "tuple") for k, v in self.vars.items()])
        if name == "keys":
            return vn.Seq(list(self.vars), "keys")
        if name == "to_dict":
            return vn.DictV({k: vn.Seq(v.iter(ev)) for k, v in self.vars.items()})
        return NotImplemented


class Metric(vn.ModelObj):
    def __init__(self, fit, path=()):
        self.fit, self.path = fit, path

    def key(self):
        return f"<{self.fit}.metric.{'.'.join(self.path)}>"

    def attr(self, ev, name, env):
        return Metric(self.fit, self.path + (name,)) if len(self.path) < 2 else sym(f"{self.fit}.metric({','.join(self.path + (name,))})")


class Export(Proc):
    def __init__(self, P):
        super().__init__(P)
        self.problems = []
        E = self.ext
        E["pandas.DataFrame"] = self.frame
        E["pandas.concat"] = self.concat
        E["pandas.MultiIndex.from_product"] = lambda ev, a, k: Index("index", vals=k.get("iterables", a[0] if a else None), name=k.get("names", a[1] if len(a) > 1 else None))
        E["pandas.Index"] = lambda ev, a, k: Index("index", vals=bind(a, k, "data").get("data"), name=k.get("name"))
        E["pandas.Series"] = lambda ev, a, k: Ser(a[0], k.get("name"))
        for n in ("log10", "log", "rad2deg", "deg2rad", "degrees", "radians", "multiply", "abs", "asarray", "array"):
            E["numpy." + n] = lambda ev, a, k, n=n: ev.each("numpy." + n, a, k)
        E["builtins.len"] = self.length
        E["builtins.isinstance"] = self.kinds
        E["functools.partial"] = lambda ev, a, k: vn.Partial(a[0], list(a[1:]), dict(k))

    @staticmethod
    def kinds(ev, a, k):
        cls = a[1].items if isinstance(a[1], vn.Seq) else [a[1]]
        names = {(c.cls.name if isinstance(c, vn.ClassV) else vn.key(c).rsplit(".", 1)[-1].rstrip(">")) for c in cls}
        v = a[0]
        if isinstance(v, Tab):
            return bool(names & {"DataFrame", "NDFrame"})
        if isinstance(v, Ser):
            return bool(names & {"Series", "NDFrame"})
        if isinstance(v, Var):
            return False
        if isinstance(v, vn.Rat):
            return bool(names & {"float", "number", "floating", "Number", "Real"})
        if isinstance(v, (bool, int, float)):
            return bool(names & (BASES[type(v).__name__] | {"Number"} | ({"number", "Real"} if not isinstance(v, bool) else set())))
        return Proc.isinst(ev, a, k)

    def each(self, d, a, k):
        if a and isinstance(a[0], (Ser, Tab)):
            o = a[0]
            return o.map(lambda x: self.ext_plain(d, [x, *a[1:]], k))
        if len(a) > 1 and isinstance(a[1], (Ser, Tab)):
            return a[1].map(lambda x: self.ext_plain(d, [a[0], x, *a[2:]], k))
        return self.ext_plain(d, a, k)

    @staticmethod
    def length(ev, a, k):
        if isinstance(a[0], Tab):
            return 4 if a[0].cols else 0
        if isinstance(a[0], Ser):
            return 4
        return ev.ext_plain("builtins.len", a, k)

    @staticmethod
    def frame(ev, a, k):
        b = bind(a, k, "data", "index")
        d, ix = b.get("data"), b.get("index")
        nm = ix.attrs.get("name") if isinstance(ix, Index) else None
        iv = ix.attrs.get("vals") if isinstance(ix, Index) else ix
        if d is None:
            return Tab({}, index=iv, iname=nm)
        if isinstance(d, Tab):
            return Tab(d.cols, d.levels, d.idx)
        if isinstance(d, Ser):
            return Tab({d.col: d.val})
        if isinstance(d, vn.DictV) and all(isinstance(x, str) for x in d.d):
            return Tab({n: v.val if isinstance(v, Ser) else v for n, v in d.d.items()}, index=iv, iname=nm)
        if isinstance(d, vn.Seq) and len(d.items) == 1 and isinstance(d.items[0], vn.DictV):
            return Tab(d.items[0].d, index=iv, iname=nm)
        return ev.unknown("DataFrame of " + vn.key(d)[:40])

    @staticmethod
    def concat(ev, a, k):
        b = bind(a, k, "objs", "axis")
        o = b.get("objs")
        if isinstance(o, vn.DictV):
            objs, keys = list(o.d.values()), list(o.d)
        else:
            objs, keys = ev.concrete(o), ev.concrete(k["keys"]) if "keys" in k else None
        if objs is None or not all(isinstance(x, (Ser, Tab)) for x in objs):
            return ev.unknown("concat of " + vn.key(o)[:60])
        if not objs:
            raise vn.PyRaise("ValueError")
        if b.get("axis", 0) in (1, "columns") and keys is None:
            cols = {}
            for x in objs:
                for n, v in (x.cols if isinstance(x, Tab) else {x.col: x.val}).items():
                    if n in cols:
                        ev.problems.append(f"the column {n} appears more than once")
                    cols[n] = v
            return Tab(cols)
        if b.get("axis", 0) in (0, "index") and keys is not None and len(objs) == 1:
            x = objs[0]
            t = Tab(x.cols if isinstance(x, Tab) else {x.col: x.val}, [(ev.concrete(k["names"])[0] if "names" in k else None, keys[0])] + (x.levels if isinstance(x, Tab) else []))
            return t
        return ev.unknown("concat")

    def fit_method(self, fit, name, args, kw):
        if name == "calc_model":
            rc = bind(args, kw, "return_components").get("return_components", True)
            ok = rc is True
            self.log.append(("calc_model", fit.name, fit.attrs.get("_fnevals_input")))
            return Tab({n: sym(f"{fit.name}.model.{n}") for n in (MODEL if ok else ("tot",))})
        return super().fit_method(fit, name, args, kw)

    def truth(self, v, node):
        if isinstance(v, vn.Seq) and v.kind == "set":
            return bool(v.items)
        if isinstance(v, (Tab, Ser)):
            raise vn.PyRaise("ValueError")
        return super().truth(v, node)

    def apply(self, f, args, kw, node, env):
        if isinstance(f, vn.ClassV) and f.cls.name == "RT1_configparser":
            return Thing("cfg", get_process_specs=Fn("specs", vn.DictV({"save_path": Path_(("save",)), "dumpfolder": "dump"})))
        if isinstance(f, vn.ClassV) and f.cls.name == "RTresults":
            p = Path_.of(args[0] if args else None)
            self.log.append(("results", p.parts_ if p is not None else None))
            return Thing("res", _paths=vn.DictV(dict(self.paths)), **{n: Thing("use " + n, load_fit=Fn("load", self.fit0), _use_dumps=kw.get("use_dumps", args[1] if len(args) > 1 else False), _hdf_paths=vn.DictV({"fit_db": Path_(("save", n, "results", "fit_db.h5"))}), fit_db=Thing("db", IDs=Thing("ids", values=Thing("v", flat=vn.Seq(["f1", "f2"])))), _fit_names=vn.Seq(["f1", "f2"])) for n in self.paths})
        return super().apply(f, args, kw, node, env)


def make_fit(ev, name, cfg, dB, num):
    ds = Tab({c: sym(f"{name}.dataset.{c}") for c in ("sig", "inc", "sm", "aux")}, owner="dataset")
    res = Tab({c: sym(f"{name}.res_df.{c}") for c in DEFS if DEFS[c][0]}, owner="res_df")
    return FitV(ev, name, dB=dB, sig0=True, dataset=ds, res_df=res, defdict=Defs(), int_Q=True, _RT1_ID_num=num, ID=f"ID{num}",
                res_dict=vn.DictV({c: vn.Seq([sym(f"{name}.res_dict.{c}.{i}") for i in range(1 if DEFS[c][2] is None else 3)]) for c in DEFS if DEFS[c][0]}),
                reader_arg=vn.DictV({"ID": f"ID{num}", "tile": f"T{num}"}), metric=Metric(name), R=Thing("R", _fnevals=f"fn of {name}"), _fnevals_input=None, **({"config_name": cfg} if cfg else {}))




def expected(ev, fit, key, opts):
    """(kind, value) of a requested parameter"""
    n = fit.name
    dB = lambda x: ev.binop(ast.Mult(), 10, ev.ext_plain("numpy.log10", [x], {}), None)
    conv = opts["sig_to_dB"] and fit.attrs["dB"] is False
    fns = opts["fns"]
    if key in fns:
        return ("static", sym(f"{n}.fn.{key}")) if fns[key] == "number" else ("dynamic", sym(f"{n}.fn.{key}"))
    if key in MODEL:
        x = sym(f"{n}.model.{key}")
        return "dynamic", dB(x) if conv else x
    if key == "sig":
        x = sym(f"{n}.dataset.sig")
        return "dynamic", dB(x) if conv else x
    if key == "inc":
        x = sym(f"{n}.dataset.inc")
        return "dynamic", ev.ext_plain("numpy.rad2deg", [x], {}) if opts["inc_to_degree"] else x
    if key in DEFS:
        d = DEFS[key]
        if d[0]:
            return ("static", sym(f"{n}.res_dict.{key}.0")) if d[2] is None else ("dynamic", sym(f"{n}.res_df.{key}"))
        return ("dynamic", sym(f"{n}.dataset.{key}")) if d[1] == "auxiliary" else ("static", d[1])
    if key == "sm":
        return "dynamic", sym(f"{n}.dataset.sm")
    if key == "tile":
        return "static", fit.attrs["reader_arg"].d["tile"]
    return None, None


PARAMS = {
    "dynamic": ["sig", "inc", "tau", "N", "sm2", "bsf", "t1", "aux", "sm"],
    "static": ["omega", "t_v", "tile"],
    "model": ["tot", "vol", "sig"],
    "mixed": ["sig", "inc", "tau", "omega", "t_v", "aux", "sm", "tile", "tot", "surf", "vol", "inter", "unknown"],
    "functions": ["sig", "omega", "f_dyn", "f_num", "tau"],
    "override": ["sig", "omega", "tau", "inc", "sm"],
    "model override": ["tot", "vol", "sig"],
    "model function": ["surf", "f_dyn", "f_num"],
    "none": None,
}
FNS = {"functions": {"f_dyn": "column", "f_num": "number", "not_requested": "number"}, "override": {"sig": "column", "tau": "number", "sm": "column"},
       "model override": {"tot": "column", "vol": "number"}, "model function": {"f_dyn": "column", "f_num": "number"}}
METRICS = {"R": ("pearson", "sig", "tot"), "RMSD": ("RMSD", "tot", "auto"), "X": "custom"}


def p_export(P, tier):
    rep = Report("P23", tier, "abstract run of RTprocess.export_data_to_HDF and of the function it hands to the result processing for two consecutive fits, with symbolic column values, for all kinds of parameters, units and export-functions")
    cls = P.cls("RTprocess")
    f = P.find_method(cls, "export_data_to_HDF")
    if f is None or P.find_method(cls, "run_finaloutput") is None:
        raise AnalysisBroken("RTprocess.export_data_to_HDF / run_finaloutput not found")
    where = f"{f.file}:{f.qual}"
    for pname, params in PARAMS.items():
        for dB in (True, False):
            for conv in ("sig+inc", "sig", "inc", ""):
                for multi in (False, True):
                    for met in ((None, METRICS) if pname in ("none", "mixed") else (None,)):
                        one(P, rep, cls, f, where, pname, params, dB, conv, multi, met)
    selection(P, rep, cls, f, where)
    direct(P, rep, cls)
    rep.minimum = 300
    return rep


def start(P, cls, f, pname, params, dB, conv, multi, met, extra=None, paths=("dump",)):
    ev = Export(P)
    ev.top = f
    ev.paths = {p: Path_(("save", p)) for p in paths}
    cfgs = ("c1", "c2") if multi else (None,)
    fits = [[make_fit(ev, f"f{i}{c or ''}", c, dB, 10 + i) for c in cfgs] for i in (1, 2)]
    if multi:
        ev.fit0 = FitV(ev, "multi", "MultiFits", accessor=Thing("acc", config_fits=vn.DictV({c: x for c, x in zip(cfgs, fits[0])})), config_names=vn.Seq(list(cfgs)), configs=vn.Seq(fits[0]))
    else:
        ev.fit0 = fits[0][0]
    got = {}
    ev.opaque["RTprocess.run_finaloutput"] = lambda e, s, b, x: got.update(b, extra=x, used=h.get(("self", "_useres"))) or "OUT"
    fns = FNS.get(pname, {})

    def fn(key, how):
        return Fn("fn " + key, lambda e, a, k: sym(f"{(a[0] if a else k['fit']).name}.fn.{key}") if how == "number" else Ser(sym(f"{(a[0] if a else k['fit']).name}.fn.{key}"), "other"))
    functions = vn.DictV({k: fn(k, h) for k, h in fns.items()}) if fns else None
    if met:
        functions = vn.DictV({**(functions.d if functions else {}), "X": fn("X", "number")})
    plist = vn.Seq(list(params)) if params is not None else None
    mets = vn.DictV({k: vn.Seq(list(v), "tuple") if isinstance(v, tuple) else v for k, v in met.items()}) if met else None
    heap = {("self", "cfg"): Thing("cfg", get_process_specs=Fn("specs", vn.DictV({"save_path": Path_(("save",)), "dumpfolder": "dump"})))}
    kw = dict(parameters=plist, metrics=mets, export_functions=functions, sig_to_dB="sig" in conv, inc_to_degree="inc" in conv)
    kw.update(extra or {})
    h = dict(heap)
    ret = ev.call_func(vn.FuncV(f, vn.Obj("self", cls)), [], kw, None, h)
    return ev, fits, got, ret, h, plist, functions, mets


def one(P, rep, cls, f, where, pname, params, dB, conv, multi, met):
    nm = f"{pname}:{'dB' if dB else 'linear'}:{'convert ' + conv if conv else 'as is'}:{'several configs' if multi else 'one fit'}" + (":metrics" if met else "")
    try:
        ev, fits, got, ret, h, plist, functions, mets = start(P, cls, f, pname, params, dB, conv, multi, met)
    except vn.PyRaise as e:
        rep.bad(nm, f"raises {e.kind}", where)
        return
    rep.analysed |= ev.visited
    func = got.get("postprocess")
    if ev.unsure or func is None:
        rep.undecided(nm, f"left open {ev.unsure[:3]}, handed over: {sorted(got)}", where)
        return
    rep.check(same(ret, "OUT"), nm + ":returned", "the return-value of run_finaloutput is returned", where)
    opts = dict(sig_to_dB="sig" in conv, inc_to_degree="inc" in conv, fns=FNS.get(pname, {}))
    for fs in fits:
        for fit in fs:
            tag = f"{nm}:{fit.name}"
            try:
                r = ev.apply(func, [], {"fit": fit}, None, {"$heap": h, "$func": f}) if multi else ev.apply(func, [fit], {}, None, {"$heap": h, "$func": f})
            except vn.PyRaise as e:
                (rep.undecided if ev.unsure else rep.bad)(tag, f"raises {e.kind}", where)
                return
            rep.analysed |= ev.visited
            if ev.unsure or not isinstance(r, vn.DictV):
                rep.undecided(tag, f"left open {ev.unsure[:3]}; {vn.key(r)[:100]}", where)
                return
            want = {"dynamic": {}, "static": {}}
            for k in params or []:
                kind, v = expected(ev, fit, k, opts)
                if kind:
                    want[kind][k] = v
            if met:
                want["metrics"] = {k: sym(f"{fit.name}.metric({p[1]},{p[2]},{p[0].lower()})") if isinstance(p, tuple) else sym(f"{fit.name}.fn.{k}") for k, p in met.items()}
            for t in sorted(set(r.d) - {x for x in want if want[x]}):
                rep.check(False, f"{tag}:{t}", "table that has not been requested", where)
            for t, cols in want.items():
                if not cols:
                    continue
                tab = r.d.get(t)
                if not isinstance(tab, Tab):
                    rep.check(False if tab is None else None, f"{tag}:{t}", f"the requested table is returned ({vn.key(tab)[:60]})", where)
                    continue
                rep.check(sorted(tab.cols) == sorted(cols), f"{tag}:{t}:columns", f"columns {sorted(tab.cols)}, requested {sorted(cols)}", where)
                for c, v in cols.items():
                    if c in tab.cols:
                        rep.check(same(tab.cols[c], v), f"{tag}:{t}:{c}", f"exported {vn.key(tab.cols[c])[:80]}, value of the fit {vn.key(v)[:80]}", where)
                num = fit.attrs["_RT1_ID_num"]
                if t == "dynamic":
                    rep.check(tab.levels == [("ID", num)], f"{tag}:{t}:index", f"the dates are indexed with the number of the feature: {tab.levels}", where)
                else:
                    iv = ev.concrete(tab.iattr.attrs.get("vals"))
                    rep.check(None if iv is None and tab.iattr.attrs.get("vals") is not None else iv == [num] and tab.iattr.attrs.get("name") == "ID", f"{tag}:{t}:index", f"index {iv} named {tab.iattr.attrs.get('name')}", where)
            if any(k in MODEL for k in params or []):
                used = [e[2] for e in ev.log if e[0] == "calc_model" and e[1] == fit.name]
                ref = [x.name for x in fits[0] if x.attrs.get("config_name") == fit.attrs.get("config_name")][0]
                rep.check(all(u in (None, f"fn of {ref}") for u in used), f"{tag}:coefficients", f"the model is evaluated with fn-coefficients of the same config ({used})", where)
    rep.check(not ev.problems, nm + ":side effects", f"{sorted(set(ev.problems))[:3]}", where)
    if plist is not None:
        rep.check(plist.items == list(params), nm + ":arguments", "the provided list of parameters is not changed", where)


def selection(P, rep, cls, f, where):
    """the options of the export are those of the result processing"""
    extra = dict(use_config=vn.Seq(["c2"]), use_nfiles=3, ncpu=2, finalout_name="NAME", savepath="PATH", dumpfolder="second", n_writer=4, pre_evaluate_fn_coefs=False)
    try:
        ev, fits, got, ret, h, *_ = start(P, cls, f, "static", ["omega"], True, "", True, None, extra, ("dump", "second"))
    except vn.PyRaise as e:
        rep.bad("selection", f"raises {e.kind}", where)
        return
    if ev.unsure:
        rep.undecided("selection", f"left open {ev.unsure[:3]}", where)
        return
    for a, b in (("use_config", "use_config"), ("use_nfiles", "use_N_files"), ("ncpu", "ncpu"), ("finalout_name", "finalout_name"), ("savepath", "save_path")):
        rep.check(same(got.get(b), extra[a]), f"selection:{a}", f"{vn.key(got.get(b))}, requested {vn.key(extra[a])}", where)
    rep.check("n_writer=4" in str(got.get("extra")) or got.get("n_writer") == 4, "selection:other options", f"{got.get('extra')}", where)
    u = got.get("used")
    rep.check(None if not isinstance(u, Thing) else u.name == "use second", "selection:dumpfolder", f"results of the requested folder are used ({vn.key(u)[:50]})", where)
    ev, fits, got, ret, h, *_ = start(P, cls, f, "static", ["omega"], True, "", False, None, dict(), ("dump", "second"))
    rep.check(not got if not ev.unsure else None, "selection:ambiguous", "nothing is exported if it is not clear which results should be used", where)


def direct(P, rep, cls):
    """the values that are collected if a postprocess-function calls _postprocess_getparams itself (a dataset may have columns named like the model contributions)"""
    f = P.find_method(cls, "_postprocess_getparams")
    if f is None:
        return
    where = f"{f.file}:{f.qual}"
    keys = ["sig", "inc", "tau", "sm2", "omega", "t_v", "aux", "sm", "tile", "unknown", *MODEL]
    for dB in (True, False):
        for conv in ("sig+inc", "sig", "inc", ""):
            for more in (False, True):
                nm = f"direct:{'dB' if dB else 'linear'}:{'convert ' + conv if conv else 'as is'}" + (":more" if more else "")
                ev = Export(P)
                ev.top = f
                fit = make_fit(ev, "f1", None, dB, 11)
                ds = Tab({c: sym(f"f1.dataset.{c}") for c in ("sig", "inc", "sm", "aux", *MODEL)}, owner="dataset")
                fit.attrs["dataset"] = ds
                kw = dict(fit=fit, saveparams=vn.Seq(list(keys)), xindex=vn.Seq(["ID", 11], "tuple"), sig_to_dB="sig" in conv, inc_to_degree="inc" in conv)
                if more:
                    kw.update(staticlayers=vn.DictV({"layer": sym("layer")}), auxdata=Tab({"extra": sym("extra")}))
                opts = dict(sig_to_dB="sig" in conv, inc_to_degree="inc" in conv, fns={})
                try:
                    r = ev.call_func(vn.FuncV(f, None), [], kw, None, {})
                except vn.PyRaise as e:
                    (rep.undecided if ev.unsure else rep.bad)(nm, f"raises {e.kind}", where)
                    continue
                rep.analysed |= ev.visited
                if ev.unsure or not isinstance(r, vn.DictV):
                    rep.undecided(nm, f"left open {ev.unsure[:3]}; {vn.key(r)[:100]}", where)
                    continue
                want = {"dynamic": {"extra": sym("extra")} if more else {}, "static": {"layer": sym("layer")} if more else {}}
                for k in keys:
                    if k in MODEL:
                        kind, v = "dynamic", sym(f"f1.dataset.{k}")
                        if "sig" in conv and not dB:
                            v = ev.binop(ast.Mult(), 10, ev.ext_plain("numpy.log10", [v], {}), None)
                    else:
                        kind, v = expected(ev, fit, k, opts)
                    if kind:
                        want[kind][k] = v
                for t, cols in want.items():
                    tab = r.d.get(t)
                    if not isinstance(tab, Tab):
                        rep.check(False if tab is None else None, f"{nm}:{t}", f"the requested table is returned ({vn.key(tab)[:60]})", where)
                        continue
                    rep.check(sorted(tab.cols) == sorted(cols), f"{nm}:{t}:columns", f"columns {sorted(tab.cols)}, requested {sorted(cols)}", where)
                    for c, v in cols.items():
                        if c in tab.cols:
                            rep.check(same(tab.cols[c], v), f"{nm}:{t}:{c}", f"exported {vn.key(tab.cols[c])[:80]}, value of the fit {vn.key(v)[:80]}", where)
                rep.check(not ev.problems, nm + ":side effects", f"{sorted(set(ev.problems))[:3]}", where)


CHECKS = {"P23": p_export}
