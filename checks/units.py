"""P07 units of modelled values, P22 metric formulas"""
import ast

from rtsa import alg, vn
from rtsa.alg import PI, fn, rat, sym, power
from rtsa.model import AnalysisBroken
from rtsa.report import Report
from .rtcommon import compare


def to_lin(v, inc, dB, sig0):
    if dB:
        v = power(rat(10), v / 10)
    if sig0:
        v = v / (4 * PI * fn("cos", inc))
    return v


def from_lin(v, inc, dB, sig0):
    if sig0:
        v = 4 * PI * fn("cos", inc) * v
    if dB:
        v = 10 * fn("log", v) / fn("log", rat(10))
    return v


def p_units(P, tier):
    rep = Report("P07", tier, "Value numbering of the unit conversion for all 16 combinations of source and target unit (and of both round "
                 "trips), of the model evaluation / Jacobian / slope entry points of a fit specialised to its unit settings, and slot "
                 "checking of every call of the conversion.")
    f = P.func("general_functions.dBsig0convert")
    v0, inc = sym("val"), sym("inc")
    B = (False, True)
    conv = {}
    for db in B:
        for sg in B:
            for fdb in B:
                for fsg in B:
                    ev = vn.Evaluator(P)
                    v, _ = ev.run(f, kw={"val": v0, "inc": inc, "dB": db, "sig0": sg, "fitdB": fdb, "fitsig0": fsg})
                    key = f"convert:{fdb:d}{fsg:d}->{db:d}{sg:d}"
                    ref = v0 if (db, sg) == (fdb, fsg) else from_lin(to_lin(v0, inc, fdb, fsg), inc, db, sg)
                    compare(rep, key, v, ref, f, f"conversion (dB={fdb},sig0={fsg}) -> (dB={db},sig0={sg})")
                    rep.analysed |= ev.visited
    fit_units(P, rep)
    call_sites(P, rep, f)
    rep.assume("unit flags are the Python booleans True/False")
    rep.minimum = 40
    return rep


def fit_units(P, rep):
    F, R = P.cls("rtfits.Fits"), P.cls("rt1.RT1")
    base = {"Fits.set_model": lambda *a: None, "Fits._assignvals": lambda ev, s, b, e: sym("assigned"),
            **cached_members(P, F)}
    f = P.func("rtfits.Fits._calc_model")
    for sg in (True, False):
        for db in (True, False):
            for comp in (True, False):
                op = dict(base)
                op["RT1.calc"] = lambda ev, s, b, e: vn.Seq([sym(x) for x in ("TOT", "SURF", "VOL")], "ndarray")
                ev = vn.Evaluator(P, opaque=op, attrs={"self.sig0": sg, "self.dB": db}, types={"R.V": P.cls("volume.Volume"), "R.SRF": P.cls("surface.Surface")},
                                  facts=lambda t: unit_fact(t))
                v, _ = ev.run(f, selfv=vn.Obj("self", F), kw={"R": vn.Obj("R", R), "return_components": comp, "assign": True,
                                                              "res_dict": sym("res_dict"), "fixed_dict": sym("fixed_dict"), "interp_vals": sym("iv")})
                t0 = ev.getattr(vn.Obj("R", R), "t_0", {"$heap": {}, "$func": f})
                key = f"model:sig0={sg}:dB={db}:components={comp}"
                want = ["TOT", "SURF", "VOL"] if comp else ["TOT"]
                got = v.items if isinstance(v, vn.Seq) else [v]
                if isinstance(v, vn.Unknown):
                    rep.undecided(key, v.why, f.qual)
                    continue
                if len(got) != len(want):
                    rep.bad(key, f"model evaluation returns {len(got)} contributions, expected {want}", f"{f.file}:{f.qual}")
                    continue
                for g, w in zip(got, want):
                    compare(rep, f"{key}:{w}", g, from_lin(sym(w), t0, db, sg), f, "model values are in the fit's unit settings")
                rep.analysed |= ev.visited
    # jacobian / slopes: the fit's flags reach the RT1 call in the right slots
    calls = []

    def rec(name):
        def h(ev, s, b, e):
            calls.append((name, {k: vn.key(x) for k, x in b.items()}))
            return alg.call(name, [name])
        return h
    for entry, names in (("_calc_jac", ["jacobian"]),
                         ("_calc_slope_curv", ["tot_slope", "surface_slope", "volume_slope", "tot_curv", "surface_curv", "volume_curv"])):
        f = P.func(f"rtfits.Fits.{entry}")
        for comp in ((True, False) if len(names) > 1 else (None,)):
            calls.clear()
            op = dict(base)
            for n in names:
                op[f"RT1.{n}"] = rec(n)
            ev = vn.Evaluator(P, opaque=op, types={"R.V": P.cls("volume.Volume"), "R.SRF": P.cls("surface.Surface")}, facts=lambda t: unit_fact(t))
            kw = {k: sym(k) for k in f.params()[1:]}
            kw["R"] = vn.Obj("R", R)
            if comp is not None:
                kw["return_components"] = comp
            v, _ = ev.run(f, selfv=vn.Obj("self", F), kw=kw)
            rep.analysed |= ev.visited
            seen = set()
            for n, b in calls:
                seen.add(n)
                good = b.get("dB") == "self.dB" and b.get("sig0") == "self.sig0"
                rep.check(good, f"{entry}:{n}:components={comp}", f"{n} evaluated with dB={b.get('dB')}, sig0={b.get('sig0')}; the fit's own flags are required",
                          f"{f.file}:{f.qual}")
            need = set(names) if comp is not False else {n for n in names if n.startswith("tot")}
            if not seen >= need:
                rep.undecided(f"{entry}:calls:{comp}", f"calls seen {sorted(seen)}; expected {sorted(need)}", f.qual)
            if comp is not None and isinstance(v, vn.DictV):
                exp = {"slope": ["tot_slope", "surface_slope", "volume_slope"] if comp else ["tot_slope"],
                       "curv": ["tot_curv", "surface_curv", "volume_curv"] if comp else ["tot_curv"]}
                got = {k: [vn.key(x) for x in (w.items if isinstance(w, vn.Seq) else [w])] for k, w in v.d.items()}
                want = {k: [alg.call(x, [x]).key() for x in w] for k, w in exp.items()}
                rep.check(got == want, f"{entry}:result:components={comp}", f"returned mapping {got}; expected {want}", f"{f.file}:{f.qual}")
            elif comp is not None:
                rep.undecided(f"{entry}:result", vn.key(v)[:200], f.qual)


def cached_members(P, cls):
    """memoised members of a class as opaque symbols"""
    out = {}
    for k in P.mro(cls):
        for nm, f in list(k.props.items()) + list(k.methods.items()):
            decs = [ast.unparse(d) for d in f.node.decorator_list]
            if any("lru_cache" in d or "cached_property" in d for d in decs):
                out[f"{k.name}.{nm}"] = (lambda nm: lambda ev, s, b, e: sym(f"{s.path if isinstance(s, vn.Obj) else 'self'}.{nm}"))(nm)
    out["Fits.set_model"] = lambda *a: None
    return out


def unit_fact(t):
    if t in ("R==None", "None==R"):
        return False
    for n in ("res_dict", "fixed_dict", "interp_vals", "param_dyn_dict", "order", "iv"):
        if t in (f"{n}==None", f"None=={n}"):
            return False
    return None


def call_sites(P, rep, f):
    """unit slots of every conversion call: an argument that is recognisably the other unit's flag is swapped"""
    names = f.params()
    n = 0
    for fn_ in P.all_functions():
        for c in ast.walk(fn_.node):
            if not isinstance(c, ast.Call):
                continue
            cal = c.func.id if isinstance(c.func, ast.Name) else c.func.attr if isinstance(c.func, ast.Attribute) else None
            if cal != f.name or fn_.node is f.node:
                continue
            if any(isinstance(a, ast.Starred) for a in c.args) or any(k.arg is None for k in c.keywords):
                continue
            b = dict(zip(names, c.args))
            b.update({k.arg: k.value for k in c.keywords})
            n += 1
            last = {}
            for k in ("dB", "sig0", "fitdB", "fitsig0"):
                a = b.get(k)
                last[k] = (a.attr if isinstance(a, ast.Attribute) else a.id if isinstance(a, ast.Name) else None,
                           ast.unparse(a.value) if isinstance(a, ast.Attribute) else None)
            swapped = [k for k in last if (k.endswith("dB") and last[k][0] == "sig0") or (k.endswith("sig0") and last[k][0] == "dB")]
            key = f"site:{fn_.qual}:{ast.unparse(c.args[0])[:40] if c.args else ''}"
            same = last["fitdB"][1] == last["fitsig0"][1] and last["dB"][1] == last["sig0"][1]
            # one call converts between a fit's units (attributes) and requested units (locals): never from requested to requested flags of two owners
            rep.check(not swapped and same, key, f"conversion call binds {({k: ast.unparse(v) for k, v in b.items() if k in last})}"
                      + (f"; slots {swapped} hold the other unit's flag" if swapped else ""), f"{fn_.file}:{c.lineno}")
            rep.analysed.add(fn_.qual)
    if n < 5:
        rep.undecided("site:count", f"only {n} conversion calls found", "rt1")


# ------------------------------------------------------------------- metrics
SERIES = ("d1", "d2")


def has_series(r):
    return any(s in r.atoms() for s in SERIES)


def atom_series(a):
    """a varies over the samples (means of series are constants)"""
    at = alg.ATOMS[a]
    if at.kind == "sym":
        return a in SERIES
    if at.kind == "call" and at.extra in ("mean", "pearson", "spearman", "min", "max"):
        return False
    return any(isinstance(x, alg.Rat) and any(atom_series(b) for b in x.atoms(deep=False)) for x in at.args) or (
        at.kind == "call" and any(isinstance(x, str) and any(s in x for s in SERIES) for x in at.args))


def emean(r):
    """linear normal form of the (NaN skipping) sample mean"""
    r = vn.asrat(r)
    mono = lambda m: alg.Rat({tuple(m): alg.F(1)})
    denvar = any(atom_series(a) for m in r.den for a, _ in m)
    den = alg.Rat(dict(r.den))
    out = rat(0)
    for m, c in r.num.items():
        ser = [(a, e) for a, e in m if atom_series(a)]
        con = [(a, e) for a, e in m if not atom_series(a)]
        body = mono(ser) if ser else rat(1)
        if denvar:
            body = body / den
        e = alg.call("mean", [body]) if (ser or denvar) else rat(1)
        t = mono(con) * alg.rat(c) * e if con else alg.rat(c) * e
        out = out + (t if denvar else t / den)
    return out


def evar(r, ddof):
    r = vn.asrat(r)
    v = emean(r * r) - emean(r) * emean(r)
    n = sym("n$")
    return v if ddof == 0 else v * n / (n - ddof)


def metric_ev(P):
    def only(args, kw, n=0, allow=()):
        if len(args) > n or any(k not in allow for k in kw):
            raise alg.Undecided("metric option")

    def mean(ev, v, a, kw):
        if a or kw and any(not (k == "skipna" and x is True) for k, x in kw.items()):
            return alg.call("mean_opt", [vn.asrat(v)] + [f"{k}={vn.key(x)}" for k, x in sorted(kw.items())])
        return emean(v)

    def std(var):
        def h(ev, v, a, kw):
            d = kw.get("ddof", a[0] if a else 1)
            return evar(v, d) if var else power(evar(v, d), rat(alg.F(1, 2)))
        return h

    def corr(ev, v, a, kw):
        m = kw.get("method", a[1] if len(a) > 1 else "pearson")
        ks = sorted([vn.key(v), vn.key(a[0] if a else kw["other"])])
        extra = [f"{k}={vn.key(x)}" for k, x in sorted(kw.items()) if k not in ("method", "other")]
        return alg.call(m if isinstance(m, str) else "corr", ks + extra)

    B = {"subtract": lambda x, y: x - y, "sub": lambda x, y: x - y, "add": lambda x, y: x + y, "mul": lambda x, y: x * y,
         "multiply": lambda x, y: x * y, "div": lambda x, y: x / y, "divide": lambda x, y: x / y, "truediv": lambda x, y: x / y,
         "pow": lambda x, y: power(x, y), "rsub": lambda x, y: y - x, "rdiv": lambda x, y: y / x}

    def b(f):
        def h(ev, v, a, kw):
            only(a[1:], {k: x for k, x in kw.items() if k != "other"})
            o = a[0] if a else kw["other"]
            return f(ev.num(v), ev.num(o))
        return h
    ext = {"." + k: b(f) for k, f in B.items()}
    ext.update({".mean": mean, ".std": std(False), ".var": std(True), ".corr": corr,
                ".abs": lambda ev, v, a, kw: absn(ev.num(v)),
                "builtins.abs": lambda ev, a, kw: absn(ev.num(a[0])), "numpy.abs": lambda ev, a, kw: absn(ev.num(a[0])),
                "numpy.absolute": lambda ev, a, kw: absn(ev.num(a[0])), "numpy.fabs": lambda ev, a, kw: absn(ev.num(a[0])),
                "numpy.mean": lambda ev, a, kw: mean(ev, a[0], a[1:], kw),
                "._asdict": lambda ev, v, a, kw: v})
    return vn.Evaluator(P, ext=ext, facts=lambda t: None)


def absn(r):
    """|num/den| = |num|/|den|, sign-normalised"""
    r = vn.asrat(r)
    if r.den != alg.ONE_P:
        return absn(alg.Rat(dict(r.num))) / absn(alg.Rat(dict(r.den)))
    if len(r.num) == 1:
        (m, c), = r.num.items()
        out = rat(abs(c))
        for a, e in m:
            x = alg.Rat({((a, 1),): alg.F(1)})
            out = out * power(x if alg.ATOMS[a].extra == "ABS" else alg.call("ABS", [x]), rat(e))
        return out
    neg = -r
    return alg.call("ABS", [min(r, neg, key=lambda q: q.key())])


def p_metrics(P, tier):
    rep = Report("P22", tier, "Value numbering of every metric with a linear sample-mean operator, compared with its definition; every "
                 "metric exposed for a fit must apply the metric of that name to (first, second) requested series; the overview contains "
                 "every metric of the registry.")
    d1, d2 = sym("d1"), sym("d2")
    half = rat(alg.F(1, 2))
    m = emean
    dd = d1 - d2
    ref = {"bias": m(d1) - m(d2), "mae": m(absn(dd)), "mape": m(absn(dd / d1)), "rmsd": power(m(dd * dd), half),
           "ub_rmsd": power(m((dd - m(dd)) * (dd - m(dd))), half),
           "std_ratio": power(evar(d1, 1), half) / power(evar(d2, 1), half),
           "pearson": alg.call("pearson", ["d1", "d2"]), "spearman": alg.call("spearman", ["d1", "d2"]),
           "linregress": alg.call("ext:scipy.stats.linregress", [d1, d2])}
    C = P.cls("rtmetrics.RTmetrics")
    W = P.cls("rtmetrics._RTmetrics1")
    for nm, r in ref.items():
        f = P.find_method(C, nm)
        if f is None:
            rep.undecided(f"metric:{nm}", "metric vanished", "rt1/rtmetrics.py")
            continue
        ev = metric_ev(P)
        v, _ = ev.run(f, kw={"d1": d1, "d2": d2})
        if isinstance(v, vn.Ite) and v.cond == "exception":
            v = v.b
        if nm == "mape" or nm in ("mae",):
            v = v
        compare(rep, f"metric:{nm}", v, r, f, f"{nm} of an ordered pair of series",
                allowed={"mean", "ABS", "pearson", "spearman", "ext:scipy.stats.linregress", "mean_opt", "attr:values", "m:to_numpy", "m:median",
                         "m:min", "m:max", "m:dropna", "m:fillna", "kendall", "ite"})
        rep.analysed |= ev.visited
        # wrapper on a fit
        p = P.find_prop(W, nm)
        if p is None:
            rep.bad(f"exposed:{nm}", f"metric {nm} is not exposed for the quantities of a fit", "rt1/rtmetrics.py:_RTmetrics1")
            continue
        ev = vn.Evaluator(P, opaque={f"RTmetrics.{x}": f"metric_{x}" for x in ref} | {
            "_RTmetrics1._unify_idx_data": lambda *a: vn.Seq([sym("first"), sym("second")], "tuple")})
        v, _ = ev.run(p, selfv=vn.Obj("self", W))
        compare(rep, f"exposed:{nm}", v, alg.call(f"metric_{nm}", [sym("first"), sym("second")]), p,
                f"{nm} of a pair of fit quantities uses metric {nm} in the requested order", allowed={f"metric_{x}" for x in ref})
        rep.analysed |= ev.visited
    # registry
    reg = P.find_attr(C, "metrics_registry")
    ev = vn.Evaluator(P, opaque={f"RTmetrics.{x}": f"metric_{x}" for x in ref})
    f = P.find_method(C, "allmetrics")
    v, _ = ev.run(f, kw={"d1": d1, "d2": d2}, selfv=vn.ClassV(C))
    if isinstance(v, vn.DictV):
        want = {k: alg.call(f"metric_{k}", [d1, d2]).key() for k in ref}
        got = {k: vn.key(x) for k, x in v.d.items()}
        rep.check(want == {k: got.get(k) for k in want}, "overview", f"overview maps {got}", f"{f.file}:{f.qual}")
    else:
        rep.undecided("overview", vn.key(v)[:300], f.qual)
    # index unification returns (first, second)
    f = P.find_prop(W, "_unify_idx_data")
    for same in (True, False):
        log = []
        ev = vn.Evaluator(P, attrs={"self.d1": sym("first"), "self.d2": sym("second")}, facts=lambda t: same if t.startswith("ext:builtins.len(first)==ext:builtins.len(second)")
                          or "first" in t and "second" in t and "len" in t and "==" in t and "item" not in t and "m:" not in t else None)
        v, _ = ev.run(f, selfv=vn.Obj("self", W))
        key = f"pairing:{'equal' if same else 'different'}-length"
        if isinstance(v, vn.Seq) and len(v.items) == 2:
            if same:
                rep.check([vn.key(x) for x in v.items] == ["first", "second"], key, f"pair handed to the metrics is {vn.key(v)[:300]}", f"{f.file}:{f.qual}")
            else:
                a, b = (vn.key(x) for x in v.items)
                rep.check("_d1" in a and "_d2" in b and "_d2" not in a.split("_d1")[-1] and a != b, key,
                          f"pair handed to the metrics is ({a[:200]}, {b[:200]})", f"{f.file}:{f.qual}")
        else:
            rep.undecided(key, vn.key(v)[:300], f.qual)
    sources(P, rep, W)
    pairs(P, rep, W)
    rep.assume("pandas means/standard deviations skip NaN; series arithmetic is aligned")
    rep.minimum = 20
    return rep


def sources(P, rep, W):
    """quantity source -> where the values come from"""
    f = P.find_method(W, "_get_data")
    want = {("auxdat", "K"): "item(self.auxdat,'K')", ("dataset", "K"): "item(self.fit.dataset,'K')", ("res_df", "K"): "item(self.fit.res_df,'K')",
            ("calc_model", "tot"): "'tot'", ("calc_model", "surf"): "'surf'"}
    for (s, k), w in want.items():
        ev = vn.Evaluator(P, attrs={"self.fit": sym("self.fit")})
        v, _ = ev.run(f, kw={"source": s, "key": k}, selfv=vn.Obj("self", W), args=[])
        kk = vn.key(v)
        if s == "calc_model":
            good = kk.startswith("item(m:calc_model(self.fit") or kk.startswith("item(") and "calc_model" in kk and w in kk
            good = good and w in kk and ("return_components=True" in kk or k == "tot")
        else:
            good = kk.replace("attr:dataset(self.fit)", "self.fit.dataset").replace("attr:res_df(self.fit)", "self.fit.res_df") == w
            if not good:
                good = None if "?<" in kk else (s if s != "auxdat" else "auxdat") in kk and "'K'" in kk and not any(o in kk for (o, _) in want if o != s)
        rep.check(good, f"source:{s}:{k}", f"quantity {k!r} of source {s!r} is {kk[:200]}", f"{f.file}:{f.qual}")
    rep.analysed.add(f.qual)


class Table(vn.ModelObj):
    """one of the four sources: knows its (numeric) columns"""

    def __init__(self, name, cols, num=None):
        self.name, self.cols, self.num = name, cols, cols if num is None else num

    def key(self):
        return self.name

    def attr(self, ev, name, env):
        return vn.Seq(list(self.cols)) if name == "columns" else NotImplemented

    def method(self, ev, name, args, kw, env):
        if name == "keys" and not args:
            return vn.Seq(list(self.cols))
        if name == "items" and not args:
            return vn.Seq([vn.Seq([c, sym(f"{self.name}[{c}]")], "tuple") for c in self.cols])
        if name == "select_dtypes":
            return Table(self.name, self.num)
        return NotImplemented

    def iter(self, ev):
        return list(self.cols)

    def contains(self, ev, x):
        return x in self.cols if isinstance(x, str) else None

    def item(self, ev, idx):
        if isinstance(idx, str):
            if idx not in self.cols:
                raise vn.PyRaise("KeyError")
            return sym(f"{self.name}[{idx}]")
        return NotImplemented


class FitModel(vn.ModelObj):
    name = "fit"

    def __init__(self, int_Q):
        self.int_Q = int_Q

    def attr(self, ev, name, env):
        t = {"dataset": Table("dataset", ["sig", "tau", "txt"], ["sig", "tau"]), "res_df": Table("res_df", ["tau"]),
             "res_dict": Table("res_dict", ["tau"]), "int_Q": self.int_Q}
        return t.get(name, NotImplemented)

    def method(self, ev, name, args, kw, env):
        if name == "calc_model":
            kw = dict(kw)
            for n, a in zip(("R", "res_dict", "fixed_dict", "return_components"), args):
                kw[n] = a
            if set(kw) - {"return_components"}:
                return NotImplemented
            return Table("calc_model", ["tot"] if kw.get("return_components") is False else ["tot", "surf", "vol"] + ["inter"] * self.int_Q)
        return NotImplemented


def pairs(P, rep, W):
    """fit.metric.<k1>.<k2>: the values of both requested quantities come from the source the name stands for"""
    K = P.cls("rtmetrics._metric_keys")
    f = P.find_method(K, "__init__")
    rep.analysed.add(f.qual)
    base = {"sig__dataset": "dataset[sig]", "sig__auxdat": "auxdat[sig]", "tau__dataset": "dataset[tau]", "tau__res_df": "res_df[tau]", "tot": "calc_model[tot]", "surf": "calc_model[surf]", "vol": "calc_model[vol]", "inter": "calc_model[inter]"}
    where = f"{f.file}:{f.qual}"
    for mode, d1, d2 in (("all", None, None), ("first", "tau__res_df", None), ("first", "inter", None), ("pair", "tau__res_df", "sig__auxdat"),
                         ("pair", "sig__dataset", "tau__dataset")):
        int_Q = mode != "all"
        src = {a: b for a, b in base.items() if int_Q or a != "inter"}
        def hasattr_(ev, args, kw):
            if isinstance(args[0], vn.Obj) and isinstance(args[1], str):
                return (args[0].path, args[1]) in ev.heap
            return None
        ev = vn.Evaluator(P, ext={"builtins.hasattr": hasattr_}, facts=lambda t: None)
        ev.instantiate, ev.exact_try = True, True
        ev.ext["rt1.log.warning"] = lambda *a: None
        me = vn.Obj("self", K)
        key = f"pairs:{mode}" + (f":{d1}" if d1 else "")
        try:
            r, heap = ev.run(f, kw=dict(fit=FitModel(int_Q), auxdat=Table("auxdat", ["sig"]), d1=d1, d2=d2), selfv=me)
        except vn.PyRaise as e:
            rep.bad(key, f"setting up the pairs fails with {e.kind}", where)
            continue
        except alg.Undecided as e:
            rep.undecided(key, str(e), where)
            continue
        if isinstance(r, vn.Unknown):
            rep.undecided(key, vn.key(r)[:300], where)
            continue
        wanted = [(a, b) for a in src for b in src if a != b and d1 in (None, a) and d2 in (None, b)]
        for a, b in wanted:
            x = heap.get(("self", a))
            y = heap.get((x.path, b)) if isinstance(x, vn.Obj) else None
            if not isinstance(y, vn.Obj):
                k = vn.key(x if x is None or isinstance(x, vn.Unknown) else y)
                if "?<" in k or (x is not None and not isinstance(x, vn.Obj)) or y is not None or any("?<" in vn.key(v) for v in heap.values()):
                    rep.undecided(key, f"{a} vs {b} is {k[:200]}", where)
                else:
                    rep.bad(key, f"the pair {a} / {b} is not offered", where)
                continue
            got = []
            for n in ("d1", "d2"):
                try:
                    v = ev.getattr(y, n, {"$heap": heap, "$func": f, "self": me})
                except vn.PyRaise as e:
                    v = e.kind
                except alg.Undecided as e:
                    v = vn.Unknown(str(e))
                got.append(v)
            want = [src[a], src[b]]
            gk = [vn.key(v) for v in got]
            rep.check(gk == want or (None if any("?<" in g or "ite(" in g for g in gk) else False), f"{key}:{a}:{b}",
                      f"the metrics of {a} and {b} are evaluated on {gk[0][:120]} and {gk[1][:120]}, expected {want}", where)
    rep.assume("names of the sample fit: a numeric column and a fitted parameter share a name, an auxiliary column and a dataset column too")


CHECKS = {"P07": p_units, "P22": p_metrics}
