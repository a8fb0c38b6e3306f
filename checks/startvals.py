"""part of P09: start values taken from the dataset

Fits._startvaldict (with param_dyn_df, the group index and the group assignments) is
evaluated for given group numbers and one symbolic start value per measurement. The start
value of every group of the parameter must be the average of exactly the start values of the
measurements in that group; padded values would enter with a weight of their own."""
from rtsa import alg, vn
from checks import grouping as gr

SAMPLES = {
    # name: (timescale of q, group numbers)
    "equal-groups": ("M", {"q": [0, 0, 1, 1, 2, 2]}),
    "unequal-groups": ("M", {"q": [0, 0, 0, 1, 2, 2]}),
    "interleaved": ("manual", {"q": [5, 2, 5, 2, 2, 2]}),
    "one-group": (None, {"q": [1] * 6}),
    "finer-other": ("M", {"q": [0, 0, 0, 0, 1, 1], "o": [3, 3, 4, 3, 3, 3]}),
    "finer-both": ("M", {"o": [7, 8, 8, 7, 8, 9], "q": [0, 0, 0, 0, 1, 1]}),
    "two-of-three": ("M", {"q": [0, 0, 0, 1, 1, 1], "o": [1, 2, 3, 1, 1, 2]}),
    "index-equal": ("index", {"q": [0, 0, 1, 1, 2, 2]}),
    "index-unequal": ("index", {"q": [0, 0, 0, 1, 2, 2]}),
    "index-coarse-other": ("index", {"q": [0, 0, 0, 1, 2, 2], "o": [1, 1, 1, 1, 1, 1]}),
    "index-finer-other": ("index", {"q": [0, 0, 0, 1, 2, 2], "o": [0, 1, 1, 0, 1, 1]}),
}


def nested(ev, v):
    """python lists of an array, None for unknown"""
    if isinstance(v, Num):
        return v.vals
    if isinstance(v, (gr.TabCol,)):
        return list(v.vals)
    if isinstance(v, (vn.Seq, vn.IterV, vn.DictV)):
        c = ev.concrete(v)
        if c is None or any(isinstance(x, vn.Star) for x in c):
            return None
        out = [nested(ev, x) if isinstance(x, (vn.Seq, Num)) else x for x in c]
        return None if any(x is None for x in out) else out
    return None


def deep(x, f):
    return [deep(y, f) for y in x] if isinstance(x, list) else f(x)


def pick(vals, idx):
    if any(not -len(vals) <= num(i) < len(vals) for r in idx for i in (r if isinstance(r, list) else [r])):
        raise vn.PyRaise("IndexError")
    return deep(idx, lambda i: vals[num(i)])


def num(i):
    if isinstance(i, alg.Rat):
        i = i.const()
    if i is None or isinstance(i, bool) or int(i) != i:
        raise alg.Undecided("position is not a number")
    return int(i)


def average(xs, ms):
    real = [x for x, m in zip(xs, ms) if not m]
    if not real:
        return None
    s = vn.asrat(real[0])
    for x in real[1:]:
        s = s + vn.asrat(x)
    return s / vn.asrat(len(real))


class Num(vn.ModelObj):
    """numpy array (1 or 2 dimensions), optionally masked"""

    def __init__(self, vals, mask=None):
        self.vals, self.mask = vals, mask

    def key(self):
        return f"arr[{deep(self.vals, vn.key)},{self.mask}]"

    def two(self):
        return bool(self.vals) and isinstance(self.vals[0], list)

    def masks(self):
        return self.mask if self.mask is not None else deep(self.vals, lambda x: False)

    def attr(self, ev, name, env):
        if name == "data":
            return Num(self.vals)
        if name == "mask":
            return Num(self.masks())
        if name == "size":
            return sum(len(r) for r in self.vals) if self.two() else len(self.vals)
        if name == "shape":
            return vn.Seq([len(self.vals)] + ([len(self.vals[0])] if self.two() else []), "tuple")
        return NotImplemented

    def reduce(self, ev, ax, how):
        m = self.masks()
        if self.two():
            if any(len(r) != len(self.vals[0]) for r in self.vals):
                raise vn.PyRaise("ValueError")
            if ax is None:
                return how([x for r in self.vals for x in r], [x for r in m for x in r])
            rows = list(zip(self.vals, m)) if ax in (1, -1) else list(zip(zip(*self.vals), zip(*m))) if ax == 0 else None
            if rows is None:
                return vn.Unknown("axis")
            r = [how(list(v), list(q)) for v, q in rows]
            return Num(r, [False] * len(r) if self.mask is not None and all(x is not None for x in r) else None if self.mask is None else [x is None for x in r])
        if ax not in (None, 0, -1):
            raise vn.PyRaise("AxisError")
        return how(self.vals, m)

    def method(self, ev, name, args, kw, env):
        if name in ("mean", "sum", "count") and set(kw) <= {"axis"} and len(args) <= 1:
            ax = kw.get("axis", args[0] if args else None)
            how = {"mean": average, "count": lambda v, m: m.count(False),
                   "sum": lambda v, m: (lambda a: None if a is None else a * vn.asrat(m.count(False)))(average(v, m))}[name]
            return self.reduce(ev, ax, how)
        if name == "compressed":
            if self.two():
                return Num([x for r, q in zip(self.vals, self.masks()) for x, b in zip(r, q) if not b])
            return Num([x for x, b in zip(self.vals, self.masks()) if not b])
        if name == "take" and args:
            return take(ev, [self] + list(args), kw)
        if name in ("tolist", "copy", "to_numpy", "astype", "__array__"):
            return self
        if name in ("ravel", "flatten") and not args:
            return self if not self.two() else Num([x for r in self.vals for x in r], None if self.mask is None else [x for r in self.mask for x in r])
        if name == "filled":
            if self.two() or any(self.masks()):
                return vn.Unknown("filled")
            return Num(self.vals)
        return NotImplemented

    def item(self, ev, idx):
        if isinstance(idx, (Num, vn.Seq)):
            i = nested(ev, idx)
            flat = [x for r in i for x in (r if isinstance(r, list) else [r])] if i is not None else []
            if i is not None and not any(isinstance(x, bool) for x in flat):
                return take(ev, [self, idx], {})
            if i is not None and flat and all(isinstance(x, bool) for x in flat) and not self.two():
                return Num([x for x, b in zip(self.vals, i) if b])
            return NotImplemented
        if isinstance(idx, int) and not isinstance(idx, bool):
            r = self.vals[idx]
            return Num(r, None if self.mask is None else self.mask[idx]) if isinstance(r, list) else r
        return NotImplemented

    def iter(self, ev):
        return [Num(r, None if self.mask is None else self.mask[i]) if isinstance(r, list) else r for i, r in enumerate(self.vals)]

    def unary(self, ev, op):
        import ast
        if isinstance(op, ast.Invert):
            return Num(deep(self.vals, lambda b: not b))
        return NotImplemented

    def binop(self, ev, op, other, right):
        import ast
        if isinstance(op, (ast.Div, ast.Mult)) and not right and not self.two():
            o = nested(ev, other) if isinstance(other, (Num, vn.Seq)) else [other] * len(self.vals) if isinstance(other, (int, alg.Rat)) else None
            if o is not None and len(o) == len(self.vals) and all(x is not None for x in self.vals):
                f = (lambda a, b: vn.asrat(a) / vn.asrat(b)) if isinstance(op, ast.Div) else (lambda a, b: vn.asrat(a) * vn.asrat(b))
                return Num([f(a, b) for a, b in zip(self.vals, o)], self.mask)
        return NotImplemented


def arr(ev, v):
    if isinstance(v, Num):
        return v
    n = nested(ev, v)
    return None if n is None else Num(n)


def take(ev, a, k):
    x, i = arr(ev, a[0]), nested(ev, a[1] if len(a) > 1 else k.get("indices"))
    if x is None or i is None or x.two():
        return vn.Unknown("take")
    return Num(pick(x.vals, i), None if x.mask is None else pick(x.mask, i))


def masked(ev, a, k):
    x, m = arr(ev, a[0]), k.get("mask", a[1] if len(a) > 1 else None)
    m = None if m is None else nested(ev, m) if not isinstance(m, bool) else deep(x.vals, lambda _: m) if x else None
    if x is None or (m is None and ("mask" in k or len(a) > 1)):
        return vn.Unknown("masked array")
    if x.mask is not None and m is not None:
        m = [[p or q for p, q in zip(r, s)] if isinstance(r, list) else r or s for r, s in zip(x.mask, m)]
    return Num(x.vals, m if m is not None else x.masks())


def reducer(name):
    def f(ev, a, k):
        x = arr(ev, a[0])
        if x is None:
            return vn.Unknown(name)
        return x.method(ev, name, list(a[1:2]), {q: v for q, v in k.items()}, None)
    return f


def rect(ev, s, b, e):
    rows = arr(ev, b["array"])
    if rows is None or not rows.vals or not isinstance(rows.vals[0], list):
        return vn.Unknown("rows")
    rs = rows.vals
    n = max(len(r) for r in rs)
    full = [list(r) + [r[-1]] * (n - len(r)) for r in rs]
    pad = [[False] * len(r) + [True] * (n - len(r)) for r in rs]
    if b.get("return_masked") is True:
        return Num(full, pad)
    if b.get("return_mask") is True:
        return vn.Seq([Num(full), Num(pad)], "list")
    return Num(full)


class Data(gr.Dataset):
    def contains(self, ev, x):
        return x in ("q", "q_start", "sig", "inc")

    def item(self, ev, idx):
        if isinstance(idx, str):
            p = {"q_start": "s"}.get(idx, f"{idx}_")
            return gr.TabCol(idx, [alg.sym(f"{p}{i}") for i in range(self.n)])
        return super().item(ev, idx) if hasattr(super(), "item") else NotImplemented


def where(f):
    return f"{f.file}:{f.qual}"


def check(P, rep):
    F = P.cls("rtfits.Fits")
    ext = {"pandas.DataFrame": gr.frame, "numpy.fromiter": gr.fromiter, "builtins.len": lambda ev, a, k: len(a[0].vals) if isinstance(a[0], Num) else gr.length(ev, a, k),
           "pandas.unique": gr.unique, "numpy.take": take, "numpy.ma.take": take, "numpy.ma.masked_array": masked, "numpy.ma.array": masked, "numpy.ma.MaskedArray": masked,
           "numpy.mean": reducer("mean"), "numpy.ma.mean": reducer("mean"), "numpy.average": reducer("mean"), "numpy.ma.average": reducer("mean"),
           "numpy.sum": reducer("sum"), "numpy.ma.sum": reducer("sum"), "numpy.ma.count": reducer("count"),
           "numpy.isscalar": lambda ev, a, k: not isinstance(a[0], (Num, vn.Seq, vn.DictV, vn.IterV)),
           "numpy.zeros_like": lambda ev, a, k: Num(deep(a[0].vals, lambda x: False if isinstance(x, bool) else 0)) if isinstance(a[0], Num) else vn.Unknown("zeros"),
           "numpy.array": lambda ev, a, k: arr(ev, a[0]) or ev.ext_plain("numpy.array", a, k), "numpy.asarray": lambda ev, a, k: arr(ev, a[0]) or ev.ext_plain("numpy.asarray", a, k)}
    for nm, (scale, D) in SAMPLES.items():
        n = len(D["q"])
        ds = Data(n)
        op = {"Fits.param_dyn_dict": lambda ev, s, b, e, D=D: vn.DictV({k: vn.Seq(list(v)) for k, v in D.items()}),
              "Fits.dataset": lambda ev, s, b, e, ds=ds: ds, "general_functions.rectangularize": rect}
        dd = {p: vn.Seq([True, "auxiliary", scale, alg.sym("bounds")]) if p == "q" else vn.Seq([True, alg.sym("start_" + p), "manual", alg.sym("bounds")]) for p in D}
        ev = vn.Evaluator(P, opaque=op, ext=ext, attrs={"self.defdict": vn.DictV(dd), "self.dataset": ds})
        ev.exact_try = True
        f = P.find_prop(F, "_startvaldict")
        try:
            ret, heap = ev.run(f, selfv=vn.Obj("self", F))
        except vn.PyRaise as e:
            rep.bad(f"start:{nm}", f"start values from the dataset ({scale} dynamics): raises {e.kind}", where(f))
            continue
        except alg.Undecided as e:
            rep.undecided(f"start:{nm}", str(e)[:300], where(f))
            continue
        rep.analysed |= ev.visited
        got = ret.d.get("q") if isinstance(ret, vn.DictV) else None
        got = nested(ev, got) if got is not None else None
        if got is None:
            rep.undecided(f"start:{nm}", f"{vn.key(ret)[:300]} {ev.notes[-2:]}", where(f))
            continue
        clean = all(isinstance(v, (int, alg.Rat)) and not isinstance(v, bool) and weights(v, n) is not None for v in got)
        rep.check(check_one(D, got) if clean or not got or not ev.notes and all(v is None or isinstance(v, alg.Rat) for v in got) else None, f"start:{nm}", f"the start value of every group is the average of the start values of its own measurements ({scale} dynamics; is {deep(got, vn.key)})", where(f))


def weights(v, n):
    """{position: weight} of a value that is linear in the start values, else None"""
    if v is None:
        return None
    v, out = vn.asrat(v), {}
    names = [f"s{i}" for i in range(n)]
    rest = v
    for x in names:
        w = alg.subst(v, {y: alg.rat(1 if x == y else 0) for y in names}).const()
        if w is None:
            return None
        if w:
            out[int(x[1:])] = w
            rest = rest - alg.rat(w) * alg.sym(x)
    return out if rest.is_zero() else None


def check_one(D, got):
    groups = gr.first_seen(D["q"])
    if len(got) != len(groups):
        return False
    for g, v in zip(groups, got):
        pos = [i for i, x in enumerate(D["q"]) if x == g]
        w = weights(v, len(D["q"]))
        if w is None or sorted(w) != pos or any(x <= 0 for x in w.values()) or sum(w.values()) != 1:
            return False
        # average of the measurements, or of the averages of the fit groups
        fit = {}
        for i in pos:
            fit.setdefault(tuple(D[p][i] for p in sorted(D)), []).append(w[i])
        of_measurements = len(set(w.values())) == 1
        of_groups = all(len(set(x)) == 1 for x in fit.values()) and len({sum(x) for x in fit.values()}) == 1
        if not of_measurements and not of_groups:
            return False
    return True
