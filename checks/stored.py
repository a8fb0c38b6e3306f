"""P21: a stored fit is loaded with the same definition, data and results"""
import ast

from rtsa import vn
from rtsa.alg import sym
from rtsa.model import AnalysisBroken
from rtsa.report import Report

from .effects import Kind, Path_, Thing, bind
from .frames import DF, NAN, PD, Arr, Idx, Ser, StrOf, concat, label, listed, mask, tup
from .process import Fn
from .recreate import Attrs, Dunder, L, PySet, Sym, T, TooMany, attrs, call, canon, eq, holds, loose, new, show, unsure


class Pandas(Dunder):
    """evaluator with symbolic tables"""

    last = None

    def __init__(self, P):
        super().__init__(P)
        Pandas.last = self
        self.ext.update(PD.EXT)
        E = self.ext
        E["builtins.len"] = lambda ev, a, k: len(a[0].vals) if isinstance(a[0], (Ser, Arr)) else len(a[0].rows) if isinstance(a[0], Idx) else a[0].n() if isinstance(a[0], DF) else len(a[0].d) if isinstance(a[0], PySet) else ev.ext_plain("builtins.len", a, k)
        E["weakref.ref"] = lambda ev, a, k: Fn2(lambda ev, b, kk, v=a[0]: v)
        E["builtins.slice"] = lambda ev, a, k: vn.SliceV(*((None, a[0], None) if len(a) == 1 else (*a, None)[:3]))
        for n in ("isidentifier", "lower", "upper", "strip", "split", "join", "startswith", "endswith", "replace"):
            E["builtins.str." + n] = lambda ev, a, k, n=n: ev.apply(vn.BoundM(a[0], n), a[1:], k, ev.node, ev.env_())
        E["weakref.proxy"] = lambda ev, a, k: a[0]
        E["builtins.isinstance"] = self.isinst
        self.opaque.update({"_MultiAccessors.__init__": self.accessor, "Fits._clear_cache": lambda ev, s, b, x: None})
        self.log = []
        for n in ("MultiFits.dump", "MultiFits._get_fit_to_hdf_dict", "_check_monotonic_dataset_index"):
            self.opaque.pop(n, None)

    @staticmethod
    def accessor(ev, s, b, x):
        ev.heap[(s.path, "_FitContainer")] = b["FitContainer"]
        return None

    def of_const(self, c):
        if isinstance(c, (list, tuple)):
            return vn.Seq([self.of_const(x) for x in c], type(c).__name__)
        if isinstance(c, dict):
            return vn.DictV({k: self.of_const(v) for k, v in c.items()})
        return c

    @staticmethod
    def isinst(ev, a, k):
        cls = a[1].items if isinstance(a[1], vn.Seq) else [a[1]]
        names = [c.cls.name if isinstance(c, vn.ClassV) else vn.key(c).rsplit(".", 1)[-1].rstrip(">") for c in cls]
        if isinstance(a[0], Fn2):
            return any(n in ("Callable", "FunctionType", "object") for n in names)
        if vn.isnum(a[0]) and not isinstance(a[0], (bool, int, float)) and not any(n in ("int", "float", "Number", "Real", "bool", "integer", "floating", "object") for n in names):
            return False
        if isinstance(a[0], Path_):
            return any(n in ("Path", "PurePath", "PosixPath", "PathLike", "object") for n in names)
        if isinstance(a[0], DF):
            return "DataFrame" in names
        if isinstance(a[0], Ser):
            return "Series" in names
        if isinstance(a[0], Idx):
            return "Index" in names or ("MultiIndex" in names and a[0].nl > 1)
        return Dunder.isinst(ev, a, k)


class Fn2(vn.ModelObj):
    """a function given by its model"""

    def __init__(self, f, name="f"):
        self.f, self.name = f, name

    def key(self):
        return f"<{self.name}>"

    def call(self, ev, args, kw, env):
        return self.f(ev, list(args), dict(kw))


class Dates(DF):
    """a dataset"""

    def attr(self, ev, name, env):
        return super().attr(ev, name, env)


def dataset(s, cols):
    days = [f"day{i}" for i in (1, 2, 3)]
    # (a missing value of one of the columns)
    return DF({c: [NAN if (c, i) in (("sand", 2), ("swi", 1)) else sym(f"{c}{s}_{i}") for i in (1, 2, 3)] for c in cols}, Idx([(d,) for d in days], ["date"]))


# ------------------------------------------------------------------ the HDF store
class Store(vn.ModelObj):
    """an opened HDF-file: key -> table"""

    def __init__(self, tabs):
        self.tabs = tabs

    def key(self):
        return "<store>"

    @staticmethod
    def norm(k):
        return k.lstrip("/")

    def tab(self, k):
        if not isinstance(k, str):
            raise vn.Undecided("key of the store")
        if self.norm(k) not in self.tabs:
            raise vn.PyRaise("KeyError")
        return self.tabs[self.norm(k)]

    def contains(self, ev, x):
        return self.norm(x) in self.tabs if isinstance(x, str) else None

    def keys(self):
        return ["/" + k for k in self.tabs] + ["/init_dict/meta/values_block_0/meta"]

    def iter(self, ev):
        return self.keys()

    def item(self, ev, idx):
        return self.tab(idx).method(ev, "copy", [], {}, None)

    def attr(self, ev, name, env):
        if name == "is_open":
            return True
        return NotImplemented

    def method(self, ev, name, args, kw, env):
        if name == "keys":
            return L(*self.keys())
        if name in ("close", "flush", "open"):
            return None
        if name == "get":
            return self.item(ev, args[0])
        if name == "select_column":
            b = bind(args, kw, "key", "column", "start", "stop")
            t = self.tab(b["key"])
            ix = Idx([(i,) for i in range(t.n())])
            if b["column"] == "index":
                if t.index.nl > 1:
                    raise vn.PyRaise("KeyError")
                return Ser([r[0] for r in t.index.rows], ix, "index")
            if b["column"] in t.index.names and t.index.nl > 1:
                i = t.index.names.index(b["column"])
                return Ser([r[i] for r in t.index.rows], ix, b["column"])
            if b["column"] in t.cols:
                return Ser(t.cols[b["column"]], ix, b["column"])
            raise vn.PyRaise("KeyError")
        if name == "get_storer":
            return Storer(self.tab(args[0]))
        if name in ("select_as_coordinates", "select"):
            b = bind(args, kw, "key", "where", "start", "stop", "columns")
            t = self.tab(b["key"])
            w = b.get("where")
            pos = list(range(t.n()))
            if w is not None:
                pos = where(ev, t, w)
            if name == "select":
                r = t.take(pos)
                return r if b.get("columns") is None else r.item(ev, b["columns"])
            return Arr(pos)
        return NotImplemented


class Storer(vn.ModelObj):
    def __init__(self, t):
        self.t = t

    def key(self):
        return "<storer>"

    def attr(self, ev, name, env):
        if name == "levels":
            return 1 if self.t.index.nl == 1 else L(*self.t.index.names)
        if name == "is_multi_index":
            return self.t.index.nl > 1
        if name == "nrows":
            return self.t.n()
        return NotImplemented

    def method(self, ev, name, args, kw, env):
        if name == "read":
            b = bind(args, kw, "where", "columns", "start", "stop")
            w = b.get("where")
            pos = range(self.t.n())
            if w is not None:
                pos = listed(ev, w) if not isinstance(w, str) else where(ev, self.t, w)
            r = self.t.take(pos)
            return r if b.get("columns") is None else r.item(ev, b["columns"])
        return NotImplemented


def where(ev, t, w):
    """positions selected by a pytables-condition or by coordinates"""
    if isinstance(w, (Arr, Idx, Ser)) or (isinstance(w, vn.Seq) and all(isinstance(x, int) for x in w.items)):
        return listed(ev, w)
    terms = [w] if isinstance(w, str) else listed(ev, w)
    if terms is None or not all(isinstance(x, str) for x in terms):
        raise vn.Undecided("where of the store")
    frame = ev.frames[-1] if ev.frames else {}
    pos = list(range(t.n()))
    for x in terms:
        try:
            e = ast.parse(x.replace(" = ", " == "), mode="eval").body
        except SyntaxError:
            raise vn.Undecided(f"where {x}")
        pos = [p for p in pos if p in cond(ev, t, e, frame)]
    return pos


def cond(ev, t, e, frame):
    n = range(t.n())
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitAnd, ast.BitOr)):
        a, b = cond(ev, t, e.left, frame), cond(ev, t, e.right, frame)
        return [p for p in n if (p in a and p in b if isinstance(e.op, ast.BitAnd) else p in a or p in b)]
    if not isinstance(e, ast.Compare) or len(e.ops) != 1 or not isinstance(e.left, ast.Name):
        raise vn.Undecided("where of the store")
    names = ["index"] if t.index.nl == 1 else t.index.names
    if e.left.id not in names:
        raise vn.PyRaise("ValueError")
    i = names.index(e.left.id)
    v = ev.ev(e.comparators[0], frame)
    if isinstance(e.ops[0], (ast.In, ast.Eq)):
        c = listed(ev, v) if not isinstance(v, str) else [v]
        c = [v] if c is None and not unsure(canon({}, v)) else c
        if c is None:
            raise vn.Undecided("where of the store")
        return [p for p in n if label(t.index.rows[p][i]) in [label(x) for x in c]]
    raise vn.Undecided("where of the store")


# ------------------------------------------------------------------ scenes
def fit_args(s, call_form=False):
    v = lambda n: sym(n + s)
    D = vn.DictV
    a = {
        "sig0": v("sig0"), "dB": v("dB"),
        "defdict": D({
            "tau": L(True, v("tau0"), "manual", T(L(v("tmin")), L(v("tmax"))), v("tinterp")),
            "w": L(True, v("w0"), "3D", T(L(v("wmin")), L(v("wmax")))),
            "sand": L(False, "auxiliary"),
            "N": L(False, v("N0"), "manual"),
        }),
        "set_V_SRF": D({"V_props": D({"V_name": "Rayleigh", "tau": "tau", "omega": v("om")}), "SRF_props": D({"SRF_name": "HenyeyGreenstein", "t": "w", "ncoefs": 8, "a": L(-1.0, 1.0, 1.0)})}),
        "lsq_kwargs": D({"ftol": v("ftol"), "x_scale": L(v("sc"))}),
        "int_Q": v("int_Q"),
    }
    return a


def results(s, n):
    return vn.DictV({"tau": L(*[sym(f"rt{s}_{i}") for i in range(n)]), "w": L(sym(f"rw{s}"))})


COLS = ("inc", "sig", "tau_dyn", "sand", "N_dyn")


def init(P):
    f = P.find_method(P.cls("Fits"), "__init__")
    if f is None:
        raise AnalysisBroken("Fits.__init__ is gone")
    return f


def evaluator(P, clean=True):
    ev = Pandas(P)
    ev.top = init(P)
    return ev


def reader_args(s, ID, kind):
    return vn.DictV({**({"ID": ID} if kind is True else {}), "path": "p" + s, "k": sym("arg" + s)})


def make_fit(ev, s, ID, data=True, aux=True, reader=True, n=2, form="dict", num=None, res=True, share=None):
    a = fit_args(s)
    if form in ("callable", "expression"):
        d = a["set_V_SRF"]

        def mk(ev, args, kw, d=d):
            tau, w = kw.get("tau"), kw.get("w")
            if form == "expression":  # tau + w
                tau = tau + w if isinstance(tau, str) and isinstance(w, str) else Sym(f"{tau.text} + {w.text}", ("tau", "w"))
            V = new(ev, "Rayleigh", {"tau": tau, "omega": d.d["V_props"].d["omega"]})
            S = new(ev, "HenyeyGreenstein", {"t": kw.get("w"), "ncoefs": 8, "a": L(-1.0, 1.0, 1.0)})
            return T(V, S)

        a["set_V_SRF"] = Fn2(mk, "set_V_SRF function")
        a["set_V_SRF"].dict_form = vn.DictV({**d.d, "V_props": vn.DictV({**d.d["V_props"].d, **({"tau": "tau + w"} if form == "expression" else {})})})
    a["dataset"] = dataset(s, COLS) if data else None
    a["ID"] = ID
    o = new(ev, "Fits", a)
    if aux:
        ev.setattr_(o, "aux_data", dataset("_aux" + s, ("lai", "swi")))
    if reader:
        ev.setattr_(o, "reader_arg", reader_args(s, ID, reader))
    if res:
        ev.setattr_(o, "res_dict", results(s, n))
    if num is not None:
        ev.setattr_(o, "_RT1_ID_num", num)
    return o


def make_multi(ev, s, ID, cfgs, data=True, aux=True, reader=True, num=None):
    m = new(ev, "MultiFits", {"dataset": dataset(s, COLS) if data else None, "aux_data": dataset("_aux" + s, ("lai", "swi")) if aux else None,
                              **({"reader_arg": reader_args(s, ID, reader)} if reader else {})})
    for c, n, form in cfgs:
        f = make_fit(ev, s + c, ID, data=False, aux=False, reader=False, n=n, form=form)
        if c == "ca":  # another parameter has been fitted in one of the configurations
            r = results(s + c, n)
            r.d["N"] = r.d.pop("w")
            ev.setattr_(f, "res_dict", r)
        call(ev, m, "add_config", [c, f])
    if reader:
        call(ev, m, "set_reader_arg", [ev.getattr(m, "reader_arg", ev.env_())])
    call(ev, m, "set_ID", [ID])
    if num is not None:
        ev.setattr_(m, "_RT1_ID_num", num)
    return m


def write(P, ev, o, **kw):
    r = call(ev, o, "_get_fit_to_hdf_dict", (), kw)
    if not isinstance(r, vn.DictV):
        raise vn.Undecided("result of _get_fit_to_hdf_dict")
    return r.d


def stored(ev, dicts):
    """the tables of a store to which several fits have been appended"""
    tabs = {}
    for d in dicts:
        for k, t in d.items():
            if not isinstance(t, DF):
                raise vn.Undecided(f"{k} is no table")
            if t.n() and t.cols:  # empty tables are not written by pandas
                tabs.setdefault(k.removeprefix("const__"), []).append(t)
    out = {}
    for k, ts in tabs.items():
        r = concat(ev, [vn.Seq(ts, "list")], {})
        if not isinstance(r, DF):
            raise vn.Undecided(f"tables of {k}")
        out[k] = r
    return out


def reader(P, ev, tabs, set_ID):
    ev.ext["pandas.HDFStore"] = lambda e, a, k: Store(tabs)
    return new(ev, "HDFaccessor", {"path": "p.h5", "set_ID": set_ID})


def get(ev, o, n):
    return ev.getattr(o, n, ev.env_())


def content(ev, v):
    if isinstance(v, DF):
        return ("table", v.content())
    if isinstance(v, vn.DictV):
        return ("dict", tuple(sorted(((k, content(ev, x)) for k, x in v.d.items()), key=lambda q: str(q[0]))))
    if isinstance(v, vn.Seq):
        return (v.kind, tuple(content(ev, x) for x in v.items))
    if isinstance(v, Sym):
        return ("", v.text)
    return loose(canon(ev.heap, v))


def norm(ev, v):
    return content(ev, v)


def vsrf(ev, o):
    v = get(ev, o, "set_V_SRF")
    if isinstance(v, vn.DictV):
        return v
    if isinstance(v, Fn2):
        return v.dict_form
    raise vn.Undecided("set_V_SRF")


def cmp(rep, tag, ev, a, b, where, what):
    x, y = loose(content(ev, a)), loose(content(ev, b))
    rep.check(eq(x, y), f"{tag}:{what}", f"stored {show(x, 150)} loaded {show(y, 150)}" if x != y else "equal", where)


def built(ev, v, names):
    """the functions defined by the dictionaries"""
    if not isinstance(v, vn.DictV):
        return ("?",)
    out = []
    for k, part in sorted(v.d.items()):
        d = dict(part.d) if isinstance(part, vn.DictV) else {}
        name = d.pop("V_name", None) or d.pop("SRF_name", None)
        o = new(ev, name, d) if isinstance(name, str) else None
        out.append((k, name, tuple((n, content(ev, maybe(ev, o, n))) for n in sorted({*d, *names.get(k, ())}) if o is not None)))
    return tuple(out)


def same_fit(rep, tag, ev, a, b, where, dict_form):
    for n in ("sig0", "dB", "lsq_kwargs", "int_Q"):
        cmp(rep, tag, ev, get(ev, a, n), get(ev, b, n), where, n)
    cmp(rep, tag, ev, call(ev, get(ev, a, "defdict"), "to_dict"), call(ev, get(ev, b, "defdict"), "to_dict"), where, "defdict")
    got = get(ev, b, "set_V_SRF")
    if isinstance(get(ev, a, "set_V_SRF"), Fn2):
        names = {k: {n for d in (got, dict_form) if isinstance(d, vn.DictV) and k in d.d for n in d.d[k].d} - {"V_name", "SRF_name"} for k in dict_form.d}
        x, y = loose(built(ev, dict_form, names)), loose(built(ev, got, names))
        rep.check(eq(x, y), f"{tag}:set_V_SRF", f"stored {show(x, 150)} loaded {show(y, 150)}" if x != y else "equal", where)
    else:
        cmp(rep, tag, ev, dict_form, got, where, "set_V_SRF")
    cmp(rep, tag, ev, get(ev, a, "ID"), get(ev, b, "ID"), where, "ID")


def maybe(ev, o, n):
    try:
        return get(ev, o, n)
    except vn.PyRaise as e:
        if e.kind == "AttributeError":
            return None
        raise


def cols(df, names):
    return None if df is None else DF({c: df.cols[c] for c in names}, df.index)


def p_hdf(P, rep):
    f = P.find_method(P.cls("Fits"), "_get_fit_to_hdf_dict")
    g = P.find_method(P.cls("HDFaccessor"), "_load_fit")
    if f is None or g is None:
        raise AnalysisBroken("Fits._get_fit_to_hdf_dict / HDFaccessor._load_fit is gone")
    where = f"{g.file}:{g.lineno} {g.qual}"

    def scene(tag, kind, opts, by, set_ID=False, form="dict", data=True, aux=True, rd=True, numbering="argument", other="same"):
        def go():
            ev = evaluator(P)
            # (without an ID in the reader_arg the sanitized ID is all there is)
            IDs, nums = ["site_b", "77", "site a" if rd is True else "site_a"], [12, 3, 7]
            objs, forms = [], []
            for i, (ID, num) in enumerate(zip(IDs, nums)):
                at = num if numbering == "attribute" else None
                if kind == "single":
                    o = make_fit(ev, f"_{i}", ID, data, aux, rd, n=2 + i, form=form, num=at)
                else:
                    o = make_multi(ev, f"_{i}", ID, [("cz", 2, form), ("ca", 3 + i, "dict")], data, aux, rd, num=at)
                objs.append(o)
            one = P.find_method(P.cls("Fits"), "_get_fit_to_hdf_dict")
            ev.opaque["Fits.res_df"] = None
            ev.opaque.pop("Fits.res_df")
            dicts = []
            for o, num in zip(objs, nums):
                before = canon(ev.heap, o)
                dicts.append(write(P, ev, o, **opts, **({} if numbering == "attribute" else {"ID": num})))
                rep.check(eq(before, canon(ev.heap, o)), f"{tag}:fit unchanged", "storing a fit does not change it", where)
            tabs = stored(ev, dicts)
            acc = reader(P, ev, tabs, set_ID)
            for i in (1, 2, 0):
                t2 = f"{tag}:feature {i + 1}"
                o = objs[i]
                key = nums[i] if by == "number" else get(ev, o, "ID")
                got = ev.apply(get(ev, acc, "load_fit"), [key], {}, None, ev.env_())
                if not isinstance(got, vn.Obj) or got.cls is None or got.cls.name != {"single": "Fits", "multi": "MultiFits"}[kind]:
                    rep.check(None if isinstance(got, (vn.Unknown, vn.Ite, vn.Cond)) else False, t2, f"loaded: {show(vn.key(got))}", where)
                    continue
                data0 = get(ev, o, "dataset")
                if data0 is not None:
                    want = data0 if opts.get("save_data", True) is True else cols(data0, [c for c in COLS if c == "tau_dyn"]) if opts.get("save_results", True) is True else None
                else:
                    want = None
                for n, w in (("dataset", want), ("aux_data", maybe(ev, o, "aux_data") if opts.get("save_auxdata", True) is True else None)):
                    cmp(rep, t2, ev, w, maybe(ev, got, n), where, n)
                w = maybe(ev, o, "reader_arg")
                w = vn.DictV({"ID": get(ev, o, "ID"), **(w.d if isinstance(w, vn.DictV) else {})})
                cmp(rep, t2, ev, w, maybe(ev, got, "reader_arg"), where, "reader_arg")
                cmp(rep, t2, ev, get(ev, o, "ID"), get(ev, got, "ID"), where, "ID")
                if kind == "single":
                    pairs = [("", o, got)]
                else:
                    cmp(rep, t2, ev, get(ev, o, "config_names"), get(ev, got, "config_names"), where, "config_names")
                    A, B = get(ev, get(ev, o, "accessor"), "config_fits").d, get(ev, get(ev, got, "accessor"), "config_fits").d
                    rep.check(list(A) == list(B), f"{t2}:configs", f"{list(A)} -> {list(B)}", where)
                    pairs = [(f":{c}", A[c], B[c]) for c in A if c in B]
                for c, x, y in pairs:
                    same_fit(rep, t2 + c, ev, x, y, where, vsrf(ev, x))
                    cmp(rep, t2 + c, ev, maybe(ev, x, "res_dict") if opts.get("save_results", True) is True else None, maybe(ev, y, "res_dict"), where, "res_dict")
                    if kind == "multi":
                        cmp(rep, t2 + c, ev, c.lstrip(":"), get(ev, y, "config_name"), where, "config_name")
                        for n in ("dataset", "aux_data", "reader_arg"):
                            cmp(rep, t2 + c, ev, maybe(ev, got, n), maybe(ev, y, n), where, f"shared {n}")
            rep.analysed |= ev.visited
            if ev.unsure:
                rep.undecided(tag, f"left open {ev.unsure[:3]}", where)

        try:
            go()
        except vn.PyRaise as e:
            rep.check(False, tag, f"raises {e.kind}", where)
        except (TooMany, vn.Undecided) as e:
            rep.check(None, tag, str(e), where)

    full = dict(save_res_df=False)
    for kind in ("single", "multi"):
        for by in ("number", "ID"):
            scene(f"{kind}:by {by}", kind, full, by)
        scene(f"{kind}:set_ID", kind, full, "ID", set_ID=True)
        scene(f"{kind}:callable", kind, full, "ID", form="callable")
        scene(f"{kind}:callable with expressions", kind, full, "ID", form="expression")
        scene(f"{kind}:number from attribute", kind, full, "number", numbering="attribute")
        scene(f"{kind}:no data", kind, {**full, "save_data": False}, "ID")
        scene(f"{kind}:no data, no results", kind, {**full, "save_data": False, "save_results": False}, "ID")
        scene(f"{kind}:no results", kind, {**full, "save_results": False}, "ID")
        scene(f"{kind}:no auxdata", kind, {**full, "save_auxdata": False}, "ID")
        scene(f"{kind}:without aux_data", kind, full, "ID", aux=False)
        scene(f"{kind}:without reader_arg", kind, full, "ID", rd=False)
        scene(f"{kind}:reader_arg without ID", kind, full, "ID", rd="no ID")
        scene(f"{kind}:without dataset", kind, full, "ID", data=False)


# ------------------------------------------------------------------ res_df
def p_res_df(P, rep):
    f = P.find_method(P.cls("Fits"), "_get_fit_to_hdf_dict")
    where = f"{f.file}:{f.lineno} {f.qual}"
    if P.find_prop(P.cls("Fits"), "res_df") is None:
        raise AnalysisBroken("Fits.res_df is gone")
    for kind in ("single", "multi"):
        def go(kind=kind):
            tag = f"{kind}:res_df"
            ev = evaluator(P)
            tabs = {}

            def res_df(e, s, b, x):
                if s.path not in tabs:
                    tabs[s.path] = dataset(f"_res{len(tabs)}", ("tau", "w"))
                return tabs[s.path]

            ev.opaque["Fits.res_df"] = res_df
            o = make_fit(ev, "_0", "a") if kind == "single" else make_multi(ev, "_0", "a", [("cz", 2, "dict"), ("ca", 3, "dict")])
            d = write(P, ev, o, ID=5)
            got = d.get("res_df")
            if not isinstance(got, DF):
                rep.check(got is None and False, tag, f"stored: {show(vn.key(got))}", where)
                return
            fits = [((), o)] if kind == "single" else [((c,), x) for c, x in get(ev, get(ev, o, "accessor"), "config_fits").d.items()]
            rows, cells = [], {"tau": [], "w": []}
            for pre, x in fits:
                t = res_df(ev, x, {}, [])
                rows += [(5, *pre, *r) for r in t.index.rows]
                for c in cells:
                    cells[c] += t.cols[c]
            want = DF(cells, Idx(rows, ["ID", *(["cfg"] if kind == "multi" else []), "date"]))
            rep.check(got.content() == want.content(), tag, f"{show(got.content(), 200)} expected {show(want.content(), 200)}" if got.content() != want.content() else "equal", where)
            d = write(P, ev, o, ID=5, save_res_df=False)
            rep.check("res_df" not in d, f"{tag}:not requested", "not stored", where)
            rep.analysed |= ev.visited

        tried(rep, f"{kind}:res_df", where, go)


def tried(rep, tag, where, go):
    try:
        return go()
    except vn.PyRaise as e:
        rep.check(False, tag, f"raises {e.kind}", where)
    except (TooMany, vn.Undecided) as e:
        rep.check(None, tag, str(e), where)


# ------------------------------------------------------------------ dumps
class Pick:
    """a pickled object"""

    def __init__(self, cls):
        self.cls, self.state = cls, None


def dumps(ev, v, memo):
    if isinstance(v, Attrs):
        v = vn.DictV({n: ev.heap[(v.obj.path, n)] for n in v.names()})
    k = ("obj", v.path) if isinstance(v, vn.Obj) else id(v)
    if k in memo:
        return memo[k][0]
    if isinstance(v, vn.Obj):
        r = Pick(v.cls)
        memo[k] = (r, v)
        m = ev.meth(v, "__getstate__")
        st = ev.call_func(vn.FuncV(m, v), [], {}, None, ev.heap) if m is not None else Attrs(ev, v)
        r.state = dumps(ev, st, memo)
        return r
    if isinstance(v, vn.Seq):
        r = vn.Seq([], v.kind)
        memo[k] = (r, v)
        r.items = [dumps(ev, x, memo) for x in v.items]
        return r
    if isinstance(v, vn.DictV):
        r = vn.DictV({})
        memo[k] = (r, v)
        r.d = {n: dumps(ev, x, memo) for n, x in v.d.items()}
        r.default = v.default
        return r
    if isinstance(v, DF):
        r = DF(v.cols, Idx(v.index.rows, v.index.names))
        memo[k] = (r, v)
        return r
    return v


def loads(ev, v, memo):
    if id(v) in memo:
        return memo[id(v)]
    if isinstance(v, Pick):
        o = memo[id(v)] = vn.Obj(vn.fresh(v.cls.name), v.cls)
        ev.made_paths.add(o.path)
        st = loads(ev, v.state, memo)
        m = ev.meth(o, "__setstate__")
        if m is not None:
            ev.call_func(vn.FuncV(m, o), [st], {}, None, ev.heap)
        elif isinstance(st, vn.DictV):
            for n, x in st.d.items():
                ev.heap[(o.path, n)] = x
        else:
            raise vn.Undecided("state of an object")
        return o
    if isinstance(v, vn.Seq):
        r = memo[id(v)] = vn.Seq([], v.kind)
        r.items = [loads(ev, x, memo) for x in v.items]
        return r
    if isinstance(v, vn.DictV):
        r = memo[id(v)] = vn.DictV({})
        r.d = {n: loads(ev, x, memo) for n, x in v.d.items()}
        r.default = v.default
        return r
    if isinstance(v, DF):
        r = memo[id(v)] = DF(v.cols, Idx(v.index.rows, v.index.names))
        return r
    return v


class File(vn.ModelObj):
    def __init__(self, disk, path, mode):
        self.disk, self.path, self.mode = disk, path, mode

    def key(self):
        return f"<file {self.path}>"

    def method(self, ev, name, args, kw, env):
        return None if name in ("close", "flush") else NotImplemented


def disk_model(ev, disk, fail=None):
    def open_(e, a, k):
        b = bind(a, k, "file", "mode")
        if fail == "open":
            raise vn.PyRaise("OSError")
        return File(disk, vn.key(b["file"]), b.get("mode", "r"))

    def dump(e, a, k):
        b = bind(a, k, "obj", "file", "protocol")
        if fail == "dump":
            raise vn.PyRaise("PicklingError")
        if not isinstance(b["file"], File) or b["file"].mode != "wb":
            raise vn.PyRaise("TypeError")
        disk[b["file"].path] = dumps(e, b["obj"], {})
        return None

    def load(e, a, k):
        f = a[0]
        p = f.path if isinstance(f, File) else vn.key(f)
        if p not in disk:
            raise vn.PyRaise("FileNotFoundError")
        return loads(e, disk[p], {})

    for m in ("cloudpickle", "pickle", "cloudpickle.cloudpickle"):
        ev.ext[m + ".dump"], ev.ext[m + ".load"] = dump, load
    ev.ext["pandas.read_pickle"] = load
    ev.ext["pandas.to_pickle"] = dump
    ev.ext["builtins.open"] = open_


FIT_OUT = {"success": "ok", "status": "st", "optimality": "op", "x": "x", "jac": "jac", "fun": "fun"}


def graph(ev, o, skip, seen=None):
    """attributes of an object and of the objects it refers to (cycles cut)"""
    seen = seen if seen is not None else {}
    if isinstance(o, vn.Obj):
        if o.path in seen:
            return ("ref", seen[o.path])
        seen[o.path] = len(seen)
        at = {n: v for n, v in attrs(ev.heap, o).items() if n not in skip}
        return ("obj", o.cls.qual if o.cls else "?", tuple((n, graph(ev, at[n], skip, seen)) for n in sorted(at)))
    if isinstance(o, (vn.Seq,)):
        return (o.kind, tuple(graph(ev, x, skip, seen) for x in o.items))
    if isinstance(o, vn.DictV):
        return ("dict", tuple((k, graph(ev, x, skip, seen)) for k, x in o.d.items()))
    if isinstance(o, DF):
        return ("table", o.content())
    if isinstance(o, (vn.Unknown, vn.Ite, vn.Cond)):
        return ("?", vn.key(o))
    return (type(o).__name__ if isinstance(o, (bool, str)) else "", vn.key(o))


def p_dump(P, rep):
    L_ = P.func("rtfits.load")
    f = P.find_method(P.cls("Fits"), "dump")
    g = P.find_method(P.cls("MultiFits"), "dump")
    if f is None or g is None or L_ is None:
        raise AnalysisBroken("dump / load is gone")
    for kind, where in (("single", f"{f.file}:{f.lineno} {f.qual}"), ("multi", f"{g.file}:{g.lineno} {g.qual}")):
        for mini in (True, False, None):
            for fail in (None, "dump", "open"):
                tag = f"dump:{kind}:mini={mini}" + (f":{fail} fails" if fail else "")

                def go():
                    ev = evaluator(P)
                    disk = {}
                    disk_model(ev, disk, fail)
                    o = make_fit(ev, "_0", "a", n=3) if kind == "single" else make_multi(ev, "_0", "a", [("cz", 2, "dict"), ("ca", 3, "callable")])
                    fits = [o] if kind == "single" else list(get(ev, get(ev, o, "accessor"), "config_fits").d.values())
                    for i, x in enumerate(fits):
                        ev.setattr_(x, "_fnevals_input", Fn(f"fnevals{i}", sym("e()")))
                        ev.setattr_(x, "fit_output", Thing(f"fit_output{i}", **{n: sym(f"{v}{i}") for n, v in FIT_OUT.items()}))
                    before = graph(ev, o, ("_RT1_version", "plot"))
                    try:
                        call(ev, o, "dump", ["f.dump"], {} if mini is None else {"mini": mini})
                        raised = None
                    except vn.PyRaise as e:
                        raised = e.kind
                    after = graph(ev, o, ("_RT1_version", "plot"))
                    rep.check(eq(before, after), f"{tag}:live object", "unchanged" if before == after else f"changed {diff(before, after)}", where)
                    if fail:
                        rep.check(raised is not None, f"{tag}:error", f"reported as {raised}", where)
                        return
                    if raised:
                        rep.check(False, tag, f"raises {raised}", where)
                        return
                    got = ev.call_func(vn.FuncV(L_), ["f.dump"], {}, None, ev.heap)
                    if not isinstance(got, vn.Obj):
                        rep.check(None if unsure(canon(ev.heap, got)) else False, tag, f"loaded: {show(vn.key(got))}", where)
                        return
                    if mini is not False:
                        # the reduced attributes, set on the live object for the comparison
                        for i, x in enumerate(fits):
                            ev.heap[(x.path, "_fnevals_input")] = None
                            ev.heap[(x.path, "fit_output")] = vn.DictV({f"fit_{n}": sym(f"{FIT_OUT[n]}{i}") for n in ("success", "status", "optimality")})
                    a, b = graph(ev, o, ("plot",)), graph(ev, got, ("plot",))
                    rep.check(eq(a, b), f"{tag}:loaded", "equal" if a == b else f"differs {diff(a, b)}", where)
                    if kind == "multi":
                        D = get(ev, got, "dataset")
                        for c, x in get(ev, get(ev, got, "accessor"), "config_fits").d.items():
                            rep.check(get(ev, x, "dataset") is D, f"{tag}:{c}:dataset", "the configurations share the dataset", where)
                    rep.analysed |= ev.visited
                    if ev.unsure:
                        rep.undecided(tag, f"left open {ev.unsure[:3]}", where)

                tried(rep, tag, where, go)


def diff(a, b, path=""):
    """first differences of two structures"""
    if a == b:
        return ""
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and a[:1] == b[:1]:
        if a[0] in ("obj", "dict"):
            x, y = dict(a[-1]), dict(b[-1])
            for n in list(x) + [n for n in y if n not in x]:
                if x.get(n) != y.get(n):
                    return diff(x.get(n), y.get(n), f"{path}.{n}")
    return f"{path}: {show(a)} -> {show(b)}"


# ------------------------------------------------------------------ results
def p_results(P, rep):
    cls = P.cls("_RT1_fitresult")
    f = P.find_method(cls, "load_fit")
    if f is None:
        raise AnalysisBroken("RTresults.load_fit is gone")
    where = f"{f.file}:{f.lineno} {f.qual}"
    FILES = ["/r/dumps/a.dump", "/r/dumps/b.dump", "/r/dumps/c.dump"]

    def scene(tag, use, ID, want, ret, opened=True):
        def go():
            ev = evaluator(P)
            ev.ext["pathlib.Path"] = lambda e, a, k: a[0] if isinstance(a[0], Path_) else Path_.of(a[0])
            ev.ext["numpy.random.choice"] = ev.ext["random.choice"] = lambda e, a, k: listed(e, a[0])[1]
            ev.ext["itertools.islice"] = lambda e, a, k: vn.IterV(listed(e, a[0])[slice(*a[1:])]) if all(x is None or type(x) is int for x in a[1:]) else e.unknown("islice")
            log = []

            def fit(what):
                log.append(what)
                return Thing(f"fit {what}", ID=f"id of {what}")

            o = vn.Obj(vn.fresh("result"), cls)
            ev.made_paths.add(o.path)
            store = Thing("store", is_open=opened)
            db = Thing("fit_db", store=store, load_fit=Fn2(lambda e, a, k: fit(("db", vn.key(a[0] if a else k["ID"])))))
            for n, v in (("_use_dumps", use), ("_dump_path", Path_.of("/r/dumps")), ("name", "r")):
                ev.heap[(o.path, n)] = v
            resets = []
            ev.opaque["_RT1_fitresult.fit_db"] = lambda e, s, b, x: db
            ev.opaque["_RT1_fitresult._reset_fit_db_cache"] = lambda e, s, b, x: resets.append(1)
            ev.opaque["_RT1_fitresult.dump_files"] = lambda e, s, b, x: vn.IterV(FILES)
            ev.opaque["rtfits.load"] = lambda e, s, b, x: fit(("file", vn.key(Path_.of(b["path"]))))
            r = ev.call_func(vn.FuncV(f, o), [ID], {"return_ID": ret} if ret is not None else {}, None, ev.heap)
            key = ("db", vn.key(want)) if isinstance(want, (int, str)) or want is None else ("file", vn.key(want))
            name = f"fit {key}"
            got = r.items if isinstance(r, vn.Seq) and ret is True and len(r.items) == 2 else [r, None]
            rep.check(isinstance(got[0], Thing) and got[0].name == name, tag, f"loaded {show(vn.key(r))}", where)
            if ret is True:
                exp = want.parts_[-1].rpartition(".")[0] if isinstance(want, Path_) else f"id of {key}"
                rep.check(got[1] == exp, f"{tag}:ID", f"returned ID {show(vn.key(got[1]))} expected {exp}", where)
            if not opened:
                rep.check(bool(resets), f"{tag}:closed store", "a closed store is re-opened", where)
            rep.analysed |= ev.visited
            if ev.unsure:
                rep.undecided(tag, f"left open {ev.unsure[:3]}", where)

        tried(rep, tag, where, go)

    PA = Path_.of("/else/x.dump")
    for ret in (None, False, True):
        t = f"results:return_ID={ret}"
        scene(f"{t}:dump by name", True, "b", Path_.of("/r/dumps/b.dump"), ret)
        scene(f"{t}:dump by file name", True, "b.dump", Path_.of("/r/dumps/b.dump"), ret)
        scene(f"{t}:dump by name with a dot", True, "b.1", Path_.of("/r/dumps/b.1.dump"), ret)
        scene(f"{t}:dump by file name with a dot", True, "b.1.dump", Path_.of("/r/dumps/b.1.dump"), ret)
        scene(f"{t}:dump by number", True, 2, Path_.of("/r/dumps/c.dump"), ret)
        scene(f"{t}:any dump", True, None, Path_.of("/r/dumps/b.dump"), ret)
        scene(f"{t}:path", True, PA, PA, ret)
        scene(f"{t}:path, no dumps", False, PA, PA, ret)
        scene(f"{t}:database by name", False, "b", "b", ret)
        scene(f"{t}:database by number", False, 2, 2, ret)
        scene(f"{t}:any of the database", False, None, None, ret)
    scene("results:closed store", False, "b", "b", None, opened=False)


class Careful(Report):
    """nothing is reported as a violation if something on the way is not known"""

    def check(self, ok, key, text, where=""):
        if ok is False and Pandas.last is not None and Pandas.last.notes:
            return super().check(None, key, f"not known: {Pandas.last.notes[0]} ({text})", where)
        return super().check(ok, key, text, where)


def p21(P, tier):
    rep = Careful("P21", tier, "Fits and MultiFits objects with symbolic definitions, data and results are written with _get_fit_to_hdf_dict, the tables of several of them are "
                  "concatenated as by HDFStore.append and loaded with HDFaccessor.load_fit (by ID and number, for all storing options); the loaded object must have the same attributes. "
                  "dump / load are evaluated over a model of pickling that honours __getstate__ and __setstate__, with failing open and dump; load_fit of a result for all kinds of requests.")
    p_hdf(P, rep)
    p_res_df(P, rep)
    p_dump(P, rep)
    p_results(P, rep)
    return rep


CHECKS = {"P21": p21}
