"""part of P08: one order of the temporal groups in every member that lays out parameter values

The members of Fits that translate between optimiser slots, groups and measurements are
evaluated for given group numbers of the parameters (param_dyn_dict is an input of all of
them); the group numbers are neither sorted nor contiguous, groups are interleaved, and two
pairs of numbers have the same concatenation."""
from rtsa import alg, vn

SAMPLES = {
    "ascending": {"tau": [0, 0, 1, 1, 2, 2], "om": [1] * 6, "q": [0, 0, 0, 0, 1, 1]},
    "descending": {"tau": [5, 5, 2, 2, 3, 3], "om": [1] * 6, "q": [9, 9, 9, 4, 4, 4]},
    "interleaved": {"om": [1] * 6, "q": [7, 12, 7, 12, 7, 7], "tau": [3, 3, 1, 3, 1, 1]},
    "same-digits": {"q": [1, 11, 1, 11, 1, 11], "tau": [12, 2, 12, 2, 2, 12], "om": [1] * 6},
}


class Tab(vn.ModelObj):
    """data frame with known columns and rows"""

    def __init__(self, cols, rows, idx=None):
        self.cols, self.rows, self.idx = cols, rows, idx

    def key(self):
        return f"frame[{self.cols},{[vn.key(vn.Seq(r)) for r in self.rows]}]"

    def attr(self, ev, name, env):
        if name == "columns":
            return vn.Seq(list(self.cols))
        if name == "index" and self.idx is not None:
            return vn.Seq(list(self.idx))
        return NotImplemented

    def col(self, c):
        return TabCol(c, [r[self.cols.index(c)] for r in self.rows])

    def method(self, ev, name, args, kw, env):
        if name == "set_index":
            c = args[0] if args else kw.get("keys")
            if isinstance(c, str) and c in self.cols and kw.get("drop", True) is True:
                i = self.cols.index(c)
                new = Tab([x for x in self.cols if x != c], [r[:i] + r[i + 1:] for r in self.rows], [r[i] for r in self.rows])
                if kw.get("inplace") is True:
                    self.cols, self.rows, self.idx = new.cols, new.rows, new.idx
                    return None
                return new
        if name in ("items", "iteritems"):
            return vn.Seq([vn.Seq([c, self.col(c)], "tuple") for c in self.cols])
        if name == "keys":
            return vn.Seq(list(self.cols))
        if name == "copy":
            return self
        if name == "nunique":
            return vn.DictV({c: len({vn.key(x) for x in self.col(c).vals}) for c in self.cols})
        return NotImplemented

    def item(self, ev, idx):
        return self.col(idx) if isinstance(idx, str) and idx in self.cols else NotImplemented

    def iter(self, ev):
        return list(self.cols)


class TabCol(vn.ModelObj):
    def __init__(self, name, vals):
        self.name, self.vals = name, vals

    def key(self):
        return f"col[{self.name}]"

    def attr(self, ev, name, env):
        if name in ("iloc", "iat", "values", "array"):
            return vn.Seq(list(self.vals), "ndarray")
        return NotImplemented

    def method(self, ev, name, args, kw, env):
        if name in ("to_numpy", "to_list", "tolist"):
            return vn.Seq(list(self.vals), "list" if "list" in name else "ndarray")
        if name == "items":
            return vn.Seq([vn.Seq([i, x], "tuple") for i, x in enumerate(self.vals)])
        if name == "nunique":
            return len({vn.key(x) for x in self.vals})
        if name == "unique":
            return vn.Seq(first_seen(self.vals), "ndarray")
        return NotImplemented

    def iter(self, ev):
        return list(self.vals)


def frame(ev, a, k):
    data = a[0] if a else k.get("data")
    cols = k.get("columns", a[2] if len(a) > 2 else None)
    rows = ev.concrete(data)
    cols = ev.concrete(cols) if cols is not None else None
    if rows is None or cols is None or isinstance(data, vn.DictV):
        return vn.Unknown("data frame")
    rs = [ev.concrete(r) for r in rows]
    if any(r is None or len(r) != len(cols) for r in rs):
        raise vn.PyRaise("ValueError")
    return Tab(list(cols), [list(r) for r in rs])


def rect(ev, s, b, e):
    """rectangularize: rows padded with their last value (that it does so is part of P09)"""
    rows = ev.concrete(b["array"])
    if rows is None:
        return vn.Unknown("rows")
    rs = [ev.concrete(r) for r in rows]
    if any(r is None for r in rs):
        return vn.Unknown("rows")
    n = max(len(r) for r in rs)
    full = vn.Seq([vn.Seq(r + [r[-1]] * (n - len(r)), "ndarray") for r in rs], "ndarray")
    if b.get("return_mask") is True:
        return vn.Seq([full, vn.Seq([vn.Seq([False] * len(r) + [True] * (n - len(r)), "ndarray") for r in rs], "ndarray")], "tuple")
    return full


def fromiter(ev, a, k):
    c = ev.concrete(a[0])
    return vn.Seq(c, "ndarray") if c is not None else vn.Unknown("fromiter")


def concatenate(ev, a, k):
    c = ev.concrete(a[0])
    if c is None or k or len(a) > 1:
        return vn.Unknown("concatenate")
    cs = [ev.concrete(x) for x in c]
    if any(x is None for x in cs) or any(isinstance(y, vn.Seq) for x in cs for y in x):
        return vn.Unknown("concatenate")
    return vn.Seq([y for x in cs for y in x], "ndarray")


def stackrows(ev, a, k):
    c = ev.concrete(a[0])
    return vn.Seq(c, "ndarray") if c is not None else vn.Unknown("stack")


def unique(ev, a, k):
    c = ev.concrete(a[0])
    return vn.Seq(first_seen(ints(vn.Seq(c))), "ndarray") if c is not None else vn.Unknown("unique")


def mdt(ev, s, b, e):
    """mean date of some measurements: named by their positions"""
    c = ev.concrete(b["datetimes"])
    if c is None or any(not vn.key(x).startswith("t") or not vn.key(x)[1:].isdigit() for x in c):
        return vn.Unknown("mean date of " + vn.key(b["datetimes"])[:80])
    return sorted_mdt([int(vn.key(x)[1:]) for x in c])


def sorted_mdt(pos):
    return "mdt(" + ",".join(map(str, sorted(pos))) + ")"


def length(ev, a, k):
    v = a[0]
    if isinstance(v, (TabCol, Index)):
        return len(v.iter(ev))
    if isinstance(v, Tab):
        return len(v.rows)
    if isinstance(v, Dataset):
        return v.n
    c = None if isinstance(v, vn.IterV) else ev.concrete(v)
    if c is not None:
        return len(c)
    return alg.call("ext:builtins.len", [vn.key(v)])


def ints(v):
    if isinstance(v, vn.IterV):
        v = vn.Seq(v.items)
    if isinstance(v, vn.Seq):
        return [ints(x) for x in v.items]
    if isinstance(v, bool) or isinstance(v, (int, str)):
        return v
    if isinstance(v, alg.Rat) and v.const() is not None:
        return int(v.const()) if v.const() == int(v.const()) else v.const()
    raise alg.Undecided(f"not a constant: {vn.key(v)[:120]}")


def lists(v):
    """positions of the groups in the order of the mapping"""
    if isinstance(v, vn.DictV):
        return [ints(x) for x in v.d.values()]
    return ints(v)


def member(P, F, name, op, ext):
    f = P.find_prop(F, name)
    if f is None:
        return None, None, None
    ev = vn.Evaluator(P, opaque=op, ext=ext)
    ev.exact_try = True
    r, h = ev.run(f, selfv=vn.Obj("self", F))
    return f, r, ev


def runs(D, p):
    out = []
    for i, g in enumerate(D[p]):
        if out and D[p][out[-1][0]] == g:
            out[-1].append(i)
        else:
            out.append([i])
    return out


def first_seen(xs):
    return list(dict.fromkeys(xs))


def check(P, rep):
    F = P.cls("rtfits.Fits")
    ext = {"pandas.DataFrame": frame, "numpy.fromiter": fromiter, "numpy.row_stack": stackrows, "numpy.vstack": stackrows,
           "numpy.stack": stackrows, "numpy.concatenate": concatenate, "numpy.hstack": concatenate, "builtins.len": length, "pandas.unique": unique}
    for nm, D in SAMPLES.items():
        n = len(next(iter(D.values())))
        ds = Dataset(n)
        op = {"Fits.param_dyn_dict": lambda ev, s, b, e, D=D: vn.DictV({k: vn.Seq(list(v)) for k, v in D.items()}),
              "Fits.dataset": lambda ev, s, b, e, ds=ds: ds, "general_functions.rectangularize": rect,
              "general_functions.meandatetime": mdt}
        got = {}

        def get(name):
            try:
                f, r, ev = member(P, F, name, op, ext)
            except (alg.Undecided, vn.PyRaise) as e:
                rep.undecided(f"groups:{nm}:{name}", f"{type(e).__name__} {e}", f"rt1/rtfits.py:Fits.{name}")
                return None
            if f is None:
                return None
            rep.analysed.add(f.qual)
            got[name] = f
            return r

        def where(name):
            f = got.get(name)
            return f"{f.file}:{f.qual}" if f else f"rt1/rtfits.py:Fits.{name}"

        def conv(name, fun):
            r = get(name)
            if r is None:
                return None
            try:
                return fun(r)
            except alg.Undecided as e:
                rep.undecided(f"groups:{nm}:{name}", str(e), where(name))
            except (AttributeError, TypeError, KeyError, IndexError, StopIteration) as e:
                rep.undecided(f"groups:{nm}:{name}", f"unexpected layout {vn.key(r)[:150]} ({type(e).__name__})", where(name))
            return None

        gi = conv("_groupindex", ints)
        combos = [tuple(v[i] for v in D.values()) for i in range(n)]
        if gi is not None:
            same = all((gi[i] == gi[j]) == (combos[i] == combos[j]) for i in range(n) for j in range(n)) and len(gi) == n
            rep.check(same, f"groups:{nm}:index", f"measurements share a group exactly if all parameters have the same group number: group numbers {D} give {gi}", where("_groupindex"))
        # measurements of each group, in the order in which the rectangular arrays use them
        order = [[i for i in range(n) if combos[i] == c] for c in first_seen(combos)]
        rows = conv("_idx_assigns", ints)
        if rows is not None:
            rows = [first_seen(r) for r in rows]
            rep.check(sorted(map(tuple, rows)) == sorted(map(tuple, order)), f"groups:{nm}:idx", f"rows of the rectangular arrays are {rows}, groups are {order}", where("_idx_assigns"))
        v = conv("_val_assigns", lists)
        if v is not None and rows is not None:
            rep.check(v == rows, f"groups:{nm}:val", f"group order of _val_assigns {v}, of the rectangular arrays {rows}", where("_val_assigns"))
        # rows of the frame of group numbers: one per group, in the same order
        t = get("param_dyn_df")
        if isinstance(t, vn.Ite):
            t = t.b
        if isinstance(t, Tab) and rows is not None:
            for p in D:
                rep.check(ints(vn.Seq(t.col(p).vals)) == [D[p][r[0]] for r in rows] if p in t.cols else False, f"groups:{nm}:frame:{p}",
                          f"group numbers of {p} per group are {vn.key(vn.Seq(t.col(p).vals)) if p in t.cols else 'missing'}, expected {[D[p][r[0]] for r in rows]}",
                          where("param_dyn_df"))
            op["Fits.param_dyn_df"] = lambda ev, s, b, e, t=t: t
        elif t is not None:
            rep.undecided(f"groups:{nm}:frame", vn.key(t)[:200], where("param_dyn_df"))
        # values of a parameter: slot order of the optimiser in every translation
        pa = conv("_param_assigns_dataset", lambda r: {k: lists(x) for k, x in r.d.items()})
        if pa is None:
            continue
        for p in D:
            w = [[i for i in range(n) if D[p][i] == g] for g in first_seen(D[p])]
            rep.check(p in pa and sorted(map(tuple, pa[p])) == sorted(map(tuple, w)), f"groups:{nm}:dataset:{p}", f"{p}: measurements per value {pa.get(p)}, expected {w} in some order",
                      where("_param_assigns_dataset"))
        md = conv("meandatetimes", lambda r: {k: ints(x) for k, x in r.d.items()})
        if md is not None:
            for p in D:
                rep.check(md.get(p) == [sorted_mdt(x) for x in pa.get(p, [])], f"groups:{nm}:dates:{p}", f"{p}: mean dates {md.get(p)} of the slots of {pa.get(p)}",
                          where("meandatetimes"))
        mg = conv("meandatetimes_group", ints)
        if mg is not None and rows is not None:
            rep.check(mg == [sorted_mdt(r) for r in rows], f"groups:{nm}:dates", f"mean dates of the groups {mg}, measurements {rows}", where("meandatetimes_group"))
        f = P.find_method(F, "_meandt_interp_assigns")
        for p in D if f is not None else ():
            ev = vn.Evaluator(P, opaque=op, ext=ext)
            ev.exact_try = True
            try:
                r, _ = ev.run(f, selfv=vn.Obj("self", F), args=[p])
                r = ints(r)
            except (alg.Undecided, vn.PyRaise) as e:
                rep.undecided(f"groups:{nm}:interp:{p}", f"{type(e).__name__} {e}", f"{f.file}:{f.qual}")
                continue
            rep.analysed.add(f.qual)
            slot = {i: n_ for n_, x in enumerate(pa.get(p, [])) for i in x}
            rep.check(r == [[sorted_mdt(x) for x in runs(D, p)], [slot.get(x[0]) for x in runs(D, p)]], f"groups:{nm}:interp:{p}",
                      f"{p}: interpolation nodes {r}, slots of the consecutive runs {[(x, slot.get(x[0])) for x in runs(D, p)]}", f"{f.file}:{f.qual}")
        ga = conv("_param_assigns", lambda r: {k: lists(x) for k, x in r.d.items()})
        if ga is not None and rows is not None:
            for p in D:
                m = [sorted(i for g in gs for i in rows[g]) for gs in ga.get(p, [])]
                rep.check(m == [sorted(x) for x in pa.get(p, [])], f"groups:{nm}:slots:{p}",
                          f"{p}: slots by group belong to the measurements {m}, slots by measurement to {pa.get(p)}", where("_param_assigns"))
        jr = conv("_jac_assign_rule", lambda r: {k: ints(x) for k, x in r.d.items()})
        if jr is not None and rows is not None:
            width = max(len(r) for r in rows)
            cells = [i for r in rows for i in r + [r[-1]] * (width - len(r))]
            for p in D:
                if p not in jr or len(jr[p]) != 2 or len(jr[p][0]) != len(jr[p][1]):
                    rep.bad(f"groups:{nm}:jac:{p}", f"Jacobian positions of {p} are {jr.get(p)}", where("_jac_assign_rule"))
                    continue
                m = {}
                for r, c in zip(*jr[p]):
                    m.setdefault(r, set()).add(cells[c])
                full = sorted(jr[p][1]) == list(range(len(cells)))
                rep.check(full and [sorted(m.get(i, ())) for i in range(len(pa[p]))] == [sorted(x) for x in pa[p]] and len(m) == len(pa[p]), f"groups:{nm}:jac:{p}",
                          f"{p}: Jacobian rows belong to the measurements {[sorted(x) for x in m.values()]} (every cell once: {full}), slots to {pa[p]}", where("_jac_assign_rule"))


class Dataset(vn.ModelObj):
    def __init__(self, n):
        self.n = n

    def key(self):
        return "dataset"

    def attr(self, ev, name, env):
        if name == "index":
            return Index(self.n)
        return NotImplemented

    def compare(self, ev, op, other):
        import ast
        if other is None and isinstance(op, (ast.Is, ast.Eq)):
            return False
        if other is None and isinstance(op, (ast.IsNot, ast.NotEq)):
            return True
        return NotImplemented


class Index(vn.ModelObj):
    def __init__(self, n):
        self.n = n

    def key(self):
        return "dataset.index"

    def vals(self):
        return [alg.sym(f"t{i}") for i in range(self.n)]

    def attr(self, ev, name, env):
        return vn.Seq(self.vals(), "ndarray") if name in ("values", "array") else NotImplemented

    def method(self, ev, name, args, kw, env):
        return vn.Seq(self.vals(), "ndarray") if name in ("to_numpy", "to_list", "tolist") else NotImplemented

    def iter(self, ev):
        return self.vals()
