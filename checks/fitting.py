"""P08 parameter vector <-> named parameters, P09 padded values never count"""
import ast

from rtsa import alg, vn
from rtsa.alg import rat, sym
from rtsa.model import AnalysisBroken
from rtsa.report import Report
from . import grouping
from .rtcommon import compare
from .units import cached_members

ORDER = ["q", "tau", "a"]            # order of the parameter vector (deliberately not sorted)
SIZES = {"q": 2, "tau": 1, "a": 3}   # number of values per parameter


class Frame(vn.ModelObj):
    """a frame of group ids with one column per parameter"""

    def __init__(self, cols):
        self.cols = cols

    def key(self):
        return "frame[" + ",".join(self.cols) + "]"

    def iter(self, ev):
        return list(self.cols)

    def contains(self, ev, x):
        return x in self.cols

    def attr(self, ev, name, env):
        if name == "columns":
            return vn.Seq(list(self.cols))
        return NotImplemented

    def method(self, ev, name, args, kw, env):
        if name == "nunique":
            return Counts(self.cols)
        if name == "keys":
            return vn.Seq(list(self.cols), "keys")
        if name == "items":
            return vn.Seq([vn.Seq([c, Col(c)], "tuple") for c in self.cols])
        return NotImplemented

    def item(self, ev, idx):
        if isinstance(idx, str):
            return Col(idx)
        if isinstance(idx, vn.Seq):
            return Frame([x for x in idx.items])
        return NotImplemented


class Counts(vn.ModelObj):
    """number of unique group ids per parameter"""

    def __init__(self, cols):
        self.cols = cols

    def key(self):
        return "counts[" + ",".join(self.cols) + "]"

    def iter(self, ev):
        return [SIZES[c] for c in self.cols]

    def item(self, ev, idx):
        if isinstance(idx, vn.Seq):
            return Counts([x for x in idx.items])
        if isinstance(idx, str):
            return SIZES[idx]
        if isinstance(idx, int):
            return SIZES[self.cols[idx]]
        return NotImplemented

    def attr(self, ev, name, env):
        if name == "loc":
            return self
        if name == "values":
            return vn.Seq([SIZES[c] for c in self.cols])
        return NotImplemented

    def method(self, ev, name, args, kw, env):
        if name in ("to_list", "tolist", "to_numpy"):
            return vn.Seq([SIZES[c] for c in self.cols])
        if name in ("reindex",) and args and isinstance(args[0], vn.Seq):
            return Counts(list(args[0].items))
        if name == "to_dict":
            return vn.DictV({c: SIZES[c] for c in self.cols})
        if name == "get":
            return SIZES[args[0]]
        if name == "items":
            return vn.Seq([vn.Seq([c, SIZES[c]], "tuple") for c in self.cols])
        return NotImplemented


class Col(vn.ModelObj):
    def __init__(self, name):
        self.name = name

    def key(self):
        return f"groups[{self.name}]"

    def method(self, ev, name, args, kw, env):
        if name == "nunique":
            return SIZES[self.name]
        if name == "unique":
            return vn.Seq([sym(f"id_{self.name}_{i}") for i in range(SIZES[self.name])])
        return NotImplemented


class MaskV(vn.ModelObj):
    """boolean grid: True marks padded entries"""

    def __init__(self, inv=False, flat=False):
        self.inv, self.flat = inv, flat

    def key(self):
        return ("~" if self.inv else "") + "MASK" + ("~flat" if self.flat else "")

    def unary(self, ev, op):
        if isinstance(op, ast.Invert):
            return MaskV(not self.inv, self.flat)
        return NotImplemented

    def method(self, ev, name, args, kw, env):
        if name in ("ravel", "flatten", "reshape"):
            return MaskV(self.inv, True)
        if name in ("astype", "copy"):
            return self
        return NotImplemented

    def attr(self, ev, name, env):
        if name == "flat":
            return MaskV(self.inv, True)
        return NotImplemented

    def compare(self, ev, op, other):
        if isinstance(other, bool) and isinstance(op, (ast.Eq, ast.NotEq)):
            return MaskV(self.inv == (other == isinstance(op, ast.Eq)), self.flat)
        return NotImplemented


class Grid(vn.ModelObj):
    """rectangular (padded) array of values: state full / flat / valid (padding removed) / invalid (only padding)"""

    def __init__(self, expr, state="full", sparse=False, rows=None):
        self.expr, self.state, self.sparse, self.rows = expr, state, sparse, rows

    def key(self):
        return f"{self.state}({self.expr.key()}{';' + self.rows if self.rows else ''})"

    def new(self, **kw):
        d = dict(expr=self.expr, state=self.state, sparse=self.sparse, rows=self.rows)
        d.update(kw)
        return Grid(**d)

    def binop(self, ev, op, other, swapped):
        if isinstance(other, Grid):
            st = {self.state, other.state}
            if len(st) > 1:
                raise Mix(f"{vn.key(self)} combined with {vn.key(other)}")
            o = other.expr
        elif vn.isnum(other):
            o = vn.asrat(other)
        else:
            return NotImplemented
        a, b = (o, self.expr) if swapped else (self.expr, o)
        r = ev.binop(op, a, b, None)
        return self.new(expr=r, sparse=self.sparse or (isinstance(other, Grid) and other.sparse),
                        rows=self.rows or (other.rows if isinstance(other, Grid) else None)) if isinstance(r, alg.Rat) else NotImplemented

    def unary(self, ev, op):
        if isinstance(op, ast.USub):
            return self.new(expr=-self.expr)
        return NotImplemented

    def sel(self, m):
        if self.state not in ("full", "flat"):
            raise Mix(f"padding removed twice from {vn.key(self)}")
        return self.new(state="valid" if m.inv else "invalid")

    def item(self, ev, idx):
        if isinstance(idx, MaskV):
            return self.sel(idx)
        if isinstance(idx, vn.Seq) and len(idx.items) == 2 and isinstance(idx.items[0], vn.SliceV) and isinstance(idx.items[1], MaskV):
            return self.sel(idx.items[1])
        if isinstance(idx, vn.Seq) and len(idx.items) == 2 and idx.items[0] is None:
            return self
        return NotImplemented

    def attr(self, ev, name, env):
        if name in ("size", "shape", "dtype", "ndim"):
            return sym(f"{name}_of_grid")
        if name == "T":
            return self
        return NotImplemented

    def method(self, ev, name, args, kw, env):
        if name in ("ravel", "flatten"):
            return self.new(state="flat" if self.state == "full" else self.state)
        if name == "reshape":
            return self.new(state="flat" if self.state == "full" else self.state)
        if name in ("tocsc", "tocsr", "tocoo", "copy", "astype", "toarray", "todense"):
            return self
        if name in ("multiply", "dot") and args:
            return self.binop(ev, ast.Mult(), args[0], False) if name == "multiply" else NotImplemented
        return NotImplemented


class Mix(vn.PyRaise):
    pass


class MaArr(vn.ModelObj):
    def __init__(self, grid, mask):
        self.grid, self.mask = grid, mask

    def key(self):
        return f"ma({vn.key(self.grid)},{vn.key(self.mask)})"

    def method(self, ev, name, args, kw, env):
        if name == "compressed":
            return self.grid.sel(MaskV(not self.mask.inv))
        return NotImplemented


class Stack(vn.ModelObj):
    def __init__(self, rows, t=False):
        self.rows, self.t = rows, t

    def key(self):
        return "stack[" + ",".join(vn.key(r) for r in self.rows) + "]" + (".T" if self.t else "")

    def method(self, ev, name, args, kw, env):
        if name == "transpose":
            return Stack(self.rows, not self.t)
        if name in ("tocsr", "tocsc", "tocoo", "copy"):
            return self
        return NotImplemented

    def attr(self, ev, name, env):
        return Stack(self.rows, not self.t) if name == "T" else NotImplemented


def flatten(ev, v):
    if isinstance(v, vn.Star):
        v = v.v
    return v.new(state="flat" if v.state == "full" else v.state) if isinstance(v, Grid) else v


def stack(ev, a, kw):
    c = ev.concrete(a[0])
    return Stack(c) if c is not None else vn.Unknown("vstack")


def sparse(ev, a, kw):
    x = a[0]
    if isinstance(x, vn.Seq) and len(x.items) == 2 and isinstance(x.items[0], Grid):
        return x.items[0].new(sparse=True, rows=vn.key(x.items[1]))
    return vn.Unknown("sparse matrix")


GRID_EXT = {
    "numpy.ravel": lambda ev, a, k: flatten(ev, a[0]) if isinstance(a[0], Grid) else MaskV(a[0].inv, True) if isinstance(a[0], MaskV) else vn.Unknown("ravel"),
    "itertools.chain": lambda ev, a, k: flatten(ev, a[0]) if len(a) == 1 and isinstance(a[0], vn.Star) and isinstance(a[0].v, Grid) else chain(ev, a),
    "itertools.chain.from_iterable": lambda ev, a, k: flatten(ev, a[0]) if isinstance(a[0], Grid) else chain(ev, ev.concrete(a[0]) or a),
    "numpy.fromiter": lambda ev, a, k: flatten(ev, a[0]), "numpy.concatenate": lambda ev, a, k: flatten(ev, a[0]) if isinstance(a[0], Grid) else vn.Unknown("concatenate"),
    "numpy.array": lambda ev, a, k: a[0], "numpy.asarray": lambda ev, a, k: a[0], "numpy.expand_dims": lambda ev, a, k: a[0],
    "numpy.atleast_2d": lambda ev, a, k: a[0], "numpy.logical_not": lambda ev, a, k: a[0].unary(ev, ast.Invert()),
    "numpy.invert": lambda ev, a, k: a[0].unary(ev, ast.Invert()),
    "numpy.multiply": lambda ev, a, k: ev.binop(ast.Mult(), a[0], a[1], None), "numpy.subtract": lambda ev, a, k: ev.binop(ast.Sub(), a[0], a[1], None),
    "numpy.compress": lambda ev, a, k: a[1].sel(a[0]), "numpy.extract": lambda ev, a, k: a[1].sel(a[0]),
    "numpy.ma.masked_array": lambda ev, a, k: MaArr(a[0], k.get("mask", a[1] if len(a) > 1 else None)),
    "numpy.ma.array": lambda ev, a, k: MaArr(a[0], k.get("mask", a[1] if len(a) > 1 else None)),
    "numpy.isscalar": lambda ev, a, k: not isinstance(a[0], (Grid, vn.Seq, vn.DictV)),
    "scipy.sparse.csr_matrix": sparse, "scipy.sparse.csc_matrix": sparse, "scipy.sparse.coo_matrix": sparse,
    "scipy.sparse.vstack": stack, "numpy.vstack": stack, "numpy.row_stack": stack,
    "scipy.sparse.isspmatrix": lambda ev, a, k: isinstance(a[0], Grid) and a[0].sparse, "scipy.sparse.issparse": lambda ev, a, k: isinstance(a[0], Grid) and a[0].sparse,
    "builtins.max": lambda ev, a, k: sym("max(" + ",".join(vn.key(x) for x in a) + ")"),
    "pandas.unique": lambda ev, a, k: vn.Seq([sym(f"id{i}") for i in range(SIZES[a[0].name])], "ndarray") if isinstance(a[0], Col) else vn.Unknown("unique"),
    "numpy.unique": lambda ev, a, k: vn.Seq([sym(f"id{i}") for i in range(SIZES[a[0].name])], "ndarray") if isinstance(a[0], Col) else vn.Unknown("unique"),
}


def chain(ev, a):
    cs = [ev.concrete(x) for x in a]
    return vn.IterV([x for c in cs for x in c]) if all(c is not None for c in cs) else vn.Unknown("chain")


class Result(vn.ModelObj):
    def __init__(self, x):
        self.x = x

    def key(self):
        return "lsq_result"

    def attr(self, ev, name, env):
        return self.x if name == "x" else sym("lsq_result." + name)

    def item(self, ev, idx):
        return self.x if idx == "x" else sym(f"lsq_result.{idx}")

    def compare(self, ev, op, other):
        return NotImplemented


def slots(prefix):
    out, i = {}, 0
    for n in ORDER:
        out[n] = [sym(f"{prefix}{i + j}") for j in range(SIZES[n])]
        i += SIZES[n]
    return out


def flat(prefix):
    return [x for n in ORDER for x in slots(prefix)[n]]


def run_performfit(P, intermediate, progress, weights="grid"):
    F = P.cls("rtfits.Fits")
    R = P.cls("rt1.RT1")
    log = {"model": [], "jac": [], "order": []}
    op = {k: v for k, v in cached_members(P, F).items()}

    def mark(name):
        def h(ev, s, b, e):
            log["order"].append(name)
            return None
        return h

    def getR(ev, s, b, e):
        log["order"].append("R")
        return vn.Obj("R", R)

    def model(ev, s, b, e):
        log["model"].append((b, e))
        return Grid(sym("MODEL"))

    def jac(ev, s, b, e):
        log["jac"].append((b, e))
        return sym("JAC")
    op.update({"Fits._clear_cache": mark("clear"), "Fits.set_model": mark("set_model"), "Fits.R": getR, "RT1._clear_cache": mark("R.clear"),
               "Fits._calc_model": model, "Fits._calc_jac": jac, "general_functions.update_progress": "update_progress",
               "Fits._startvaldict": lambda ev, s, b, e: vn.DictV({"a": vn.Seq([sym(f"start_a{i}") for i in range(3)]), "q": vn.Seq([sym("start_q0"), sym("start_q1")]),
                                                                "tau": vn.Seq([sym("start_tau0")])}),
               "Fits._boundsvaldict": lambda ev, s, b, e: vn.DictV({n: vn.Seq([vn.Seq([sym(f"lo_{n}{i}") for i in range(SIZES[n])]),
                                                                             vn.Seq([sym(f"hi_{n}{i}") for i in range(SIZES[n])])], "tuple") for n in ("tau", "a", "q")}),
               "Fits._order": lambda ev, s, b, e: vn.Seq(list(ORDER)),
               "Fits.param_dyn_df": lambda ev, s, b, e: Frame(["a", "q", "tau"]),
               "Fits.param_dyn_dict": lambda ev, s, b, e: Frame(["a", "q", "tau"]),
               "Fits.mask": lambda ev, s, b, e: MaskV(), "Fits.data": lambda ev, s, b, e: Grid(sym("DATA")),
               "Fits.data_weights": lambda ev, s, b, e: Grid(sym("WEIGHTS")) if weights == "grid" else rat(1)})
    call = {}

    def lsq(ev, args, kw):
        names = ["fun", "x0", "jac", "bounds"]
        b = dict(zip(names, args))
        b.update(kw)
        call["b"] = b
        env = {"$heap": ev.heap, "$func": P.func("rtfits.Fits.performfit")}
        call["fun"] = ev.apply(b["fun"], [vn.Seq([sym(f"P{i}") for i in range(6)], "ndarray")], {}, None, env)
        if isinstance(b.get("jac"), (vn.FuncV, vn.Partial, vn.BoundM)):
            call["jac"] = ev.apply(b["jac"], [vn.Seq([sym(f"P{i}") for i in range(6)], "ndarray")], {}, None, env)
        return Result(vn.Seq([sym(f"X{i}") for i in range(6)], "ndarray"))
    ev = vn.Evaluator(P, opaque=op, attrs={"self.lsq_kwargs": vn.DictV({"ftol": sym("FTOL"), "max_nfev": sym("NFEV")})},
                      ext={**GRID_EXT, "scipy.optimize.least_squares": lsq, "builtins.hasattr": lambda ev, a, k: True})
    ev.exact_try = True
    f = P.func("rtfits.Fits.performfit")
    ret, heap = ev.run(f, selfv=vn.Obj("self", F), kw={"clear_cache": True, "intermediate_results": intermediate, "print_progress": progress})
    return ev, f, ret, heap, call, log



JSIZES = {"u": 2, "t": 1, "w": 3, "x": 1, "v": 2}
JORDER = ["u", "t", "w", "x", "v"]


class Inner(vn.ModelObj):
    """derivative of tau/omega/NormBRDF with respect to one of its symbols"""

    def __init__(self, what, name, scalar=False):
        self.what, self.name, self.scalar = what, name, scalar

    def key(self):
        return f"d{self.what}_d{self.name}"

    def call(self, ev, args, kw, env):
        t = alg.call(f"d{self.what}_d{self.name}", [vn.key(a) for a in args] + [f"{k}={vn.key(v)}" for k, v in sorted(kw.items())])
        return t if self.scalar else Grid(t)


def run_jac(P, scalar, symbs, order=JORDER):
    """symbs: {"tau": [...], "omega": [...], "N": [...]} symbols of the functional definitions"""
    F, R = P.cls("rtfits.Fits"), P.cls("rt1.RT1")
    op = dict(cached_members(P, F))
    SIZES.update(JSIZES)
    lists = []
    dyn = sorted(order)

    def jacobian(ev, s, b, e):
        pl = b.get("param_list")
        lists.append((vn.key(pl), b))
        if not isinstance(pl, vn.Seq):
            return vn.Unknown("param_list")
        return vn.Seq([Grid(sym(f"J_{n}")) for n in pl.items])
    op.update({"Fits.set_model": lambda *a: None, "RT1.jacobian": jacobian,
               "Fits._set_calc_values": lambda ev, s, b, e: (lists.append(("set", b)), b.get("R"))[1],
               "Fits._assignvals": lambda ev, s, b, e: vn.DictV({n: Grid(sym(f"A_{n}")) for n in order}),
               "Fits.param_dyn_df": lambda ev, s, b, e: Frame(dyn), "Fits.param_dyn_dict": lambda ev, s, b, e: Frame(dyn),
               "Fits._order": lambda ev, s, b, e: vn.Seq(list(order)), "Fits.mask": lambda ev, s, b, e: MaskV(),
               "Fits._jac_assign_rule": lambda ev, s, b, e: vn.DictV({n: vn.Seq([sym(f"row_{n}"), sym(f"col_{n}")], "ndarray") for n in dyn}),
               "Fits.interp_vals": lambda ev, s, b, e: vn.Seq([])})
    for w, nm in (("tau", "tau"), ("omega", "omega"), ("N", "N")):
        op[f"Fits._{nm}_symb"] = (lambda w: lambda ev, s, b, e: vn.Seq(list(symbs[w])))(w)
        op[f"Fits._{nm}_diff_func"] = (lambda w: lambda ev, s, b, e: vn.DictV({n: Inner(w, n, scalar) for n in symbs[w] if n in order}))(w)
    ev = vn.Evaluator(P, opaque=op, ext={**GRID_EXT, "builtins.hasattr": lambda ev, a, k: False})
    ev.exact_try = True
    f = P.func("rtfits.Fits._calc_jac")
    res = vn.DictV({n: vn.Seq([sym(f"P_{n}_{i}") for i in range(JSIZES[n])]) for n in order})
    fixed = vn.DictV({"s": Grid(sym("F_s"))})
    ret, heap = ev.run(f, selfv=vn.Obj("self", F), kw={"R": vn.Obj("R", R), "res_dict": res, "fixed_dict": fixed, "param_dyn_dict": None, "order": None, "interp_vals": None})
    return ev, f, ret, lists



class Fun(vn.ModelObj):
    """compiled function of named values"""

    def __init__(self, name):
        self.name = name

    def key(self):
        return self.name

    def call(self, ev, args, kw, env):
        return alg.call(self.name, [vn.key(a) for a in args] + [f"{k}={vn.key(v)}" for k, v in sorted(kw.items())])


class Val(vn.ModelObj):
    """an array of values"""

    def __init__(self, name):
        self.name = name

    def key(self):
        return self.name


class Buf(vn.ModelObj):
    """array that is filled group by group"""

    def __init__(self, init="empty"):
        self.init, self.puts = init, []

    def key(self):
        return f"scatter[{self.init};" + ",".join(f"{vn.key(i)}<-{vn.key(v)}" for i, v in sorted(self.puts, key=lambda p: vn.key(p[0]))) + "]"

    def method(self, ev, name, args, kw, env):
        if name == "put":
            b = dict(zip(("indices", "values"), args))
            b.update(kw)
            self.puts.append((b.get("indices", b.get("ind")), b.get("values", b.get("v"))))
            return None
        if name in ("copy", "astype"):
            return self
        if name == "take":
            return alg.call("take", [self.key(), vn.key(args[0])])
        return NotImplemented

    def setitem(self, ev, idx, v, env):
        self.puts.append((idx, v))

    def item(self, ev, idx):
        return alg.call("take", [self.key(), vn.key(idx)])


class Groups(vn.ModelObj):
    """group id -> positions, one entry per value of the parameter"""

    def __init__(self, name):
        self.name = name

    def key(self):
        return f"groups[{self.name}]"

    def pos(self):
        return [sym(f"pos_{self.name}_{i}") for i in range(SIZES[self.name])]

    def gid(self):
        return [sym(f"gid_{self.name}_{i}") for i in range(SIZES[self.name])]

    def method(self, ev, name, args, kw, env):
        if name == "values":
            return vn.Seq(self.pos())
        if name == "items":
            return vn.Seq([vn.Seq([g, p], "tuple") for g, p in zip(self.gid(), self.pos())])
        if name == "keys":
            return vn.Seq(self.gid())
        return NotImplemented

    def iter(self, ev):
        return self.gid()

    def item(self, ev, idx):
        for g, p in zip(self.gid(), self.pos()):
            if vn.key(g) == vn.key(idx):
                return p
        return NotImplemented


class GroupDict(vn.ModelObj):
    def key(self):
        return "groups"

    def item(self, ev, idx):
        return Groups(idx) if isinstance(idx, str) else NotImplemented


def run_assign(P):
    """distribution of group values without interpolation"""
    F = P.cls("rtfits.Fits")
    op = dict(cached_members(P, F))
    op.update({"Fits._param_assigns_dataset": lambda *a: GroupDict(), "Fits._idx_assigns": lambda *a: sym("IDX"),
               "Fits.interp_vals": lambda *a: vn.Seq([]), "Fits.meandatetimes": lambda *a: sym("MDT"),
               "Fits._assignvals_log_message": "msg"})
    buf = lambda ev, a, k: Buf()
    ev = vn.Evaluator(P, opaque=op, ext={"numpy.empty": buf, "numpy.zeros": buf, "numpy.full": buf, "numpy.ones": buf, "numpy.empty_like": buf,
                                         "numpy.put": lambda ev, a, k: a[0].puts.append((a[1], a[2])),
                                         "numpy.take": lambda ev, a, k: alg.call("take", [vn.key(a[0]), vn.key(a[1] if len(a) > 1 else k["indices"])])})
    ev.exact_try = True
    f = P.func("rtfits.Fits._assignvals")
    res = vn.DictV({n: vn.Seq([sym(f"P_{n}_{i}") for i in range(SIZES[n])]) for n in ORDER})
    ret, heap = ev.run(f, selfv=vn.Obj("self", F), kw={"res_dict": res, "interp_vals": None})
    return ev, f, ret


def run_set(P, qual, funcs, assign, order):
    """assignment of the parameter values to R; parameters: a (part of tau), g (part of NormBRDF), h,t (functions), f,aux (fixed),
    direct omega if it has no function"""
    F, R = P.cls("rtfits.Fits"), P.cls("rt1.RT1")
    op = dict(cached_members(P, F))
    log = []

    def dist(ev, s, b, e):
        d = b["res_dict"]
        log.append(b)
        return vn.DictV({k: Val(f"dist({k},{vn.key(v)})") for k, v in d.d.items()}) if isinstance(d, vn.DictV) else vn.Unknown("res_dict")
    op.update({"Fits._assignvals": dist, "Fits.interp_vals": lambda *a: vn.Seq([]),
               "Fits._tau_symb": lambda *a: vn.Seq(["a", "f"] if "tau" in funcs else []),
               "Fits._omega_symb": lambda *a: vn.Seq(["b"] if "omega" in funcs else []),
               "Fits._N_symb": lambda *a: vn.Seq(["g", "h"] if "N" in funcs else []),
               "Fits._Vsymb": lambda *a: vn.Seq(["t", "theta_0", "theta_ex"], "set"), "Fits._SRFsymb": lambda *a: vn.Seq(["h", "phi_0"], "set")})
    op.pop("Fits._get_excludesymbs", None)
    for w in ("tau", "omega", "N"):
        op[f"Fits._{w}_func"] = (lambda w: lambda *a: Fun("F" + w) if w in funcs else None)(w)
    op.update({f"RT1.{m}": "RT1." + m for m in ("calc", "tot_slope", "tot_curv", "surface_slope", "volume_slope", "surface_curv", "volume_curv")})
    names = {"tau": ["a"], "omega": ["b"], "N": ["g"]}
    dyn = ["t", "h", "bsf"] + [n for w in ("tau", "omega", "N") for n in (names[w] if w in funcs else [{"N": "NormBRDF"}.get(w, w)])]
    if order:
        dyn.reverse()
    fix = ["x"] + (["f"] if "tau" in funcs else [])
    if "tau" not in funcs and order:
        dyn.remove("tau")
        fix.append("tau")
    ev = vn.Evaluator(P, opaque=op, attrs={"R.param_dict": vn.DictV({"x": sym("old_x"), "h": sym("old_h"), "t": sym("old_t")})}, facts=lambda t: None)
    ev.exact_try = True
    f = P.func(qual)
    kw = {"R": vn.Obj("R", R), "res_dict": vn.DictV({n: Val(f"P_{n}") for n in dyn}), "fixed_dict": vn.DictV({n: Val(f"F_{n}") for n in fix}), "interp_vals": vn.Seq([])}
    if "assign" in f.params():
        kw["assign"] = assign
    kw = {k: v for k, v in kw.items() if k in f.params()}
    ret, heap = ev.run(f, selfv=vn.Obj("self", F), kw=kw)
    val = {n: Val(f"dist({n},P_{n})" if assign else f"P_{n}") for n in dyn}
    val.update({n: Val(f"F_{n}") for n in fix})
    return ev, f, ret, heap, val


def expect_set(funcs, val):
    out = {}
    for w, o, args in (("tau", ("R.V", "tau"), ["a", "f"]), ("omega", ("R.V", "omega"), ["b"]), ("N", ("R.SRF", "NormBRDF"), ["g", "h"])):
        if w in funcs:
            out[o] = alg.call("F" + w, [f"{k}={vn.key(val[k])}" for k in sorted(args)])
        else:
            out[o] = val[o[1]]
    out[("R", "bsf")] = val["bsf"]
    return out


def seqkey(v):
    return vn.key(v.items) if isinstance(v, vn.Seq) else vn.key(v)


def same(rep, key, got, want, what, f):
    """structural comparison of evaluated containers"""
    where = f"{f.file}:{f.qual}"
    if isinstance(got, vn.Unknown) or "?<" in (got if isinstance(got, str) else vn.key(got)):
        rep.undecided(key, f"{what}: outside the decidable fragment ({vn.key(got)[:300]})", where)
        return
    g = got if isinstance(got, str) else norm(got)
    w = want if isinstance(want, str) else norm(want)
    rep.check(g == w, key, what if g == w else f"{what}: is {g[:700]}, expected {w[:700]}", where)


def norm(v):
    """key that ignores the kind of sequence"""
    if isinstance(v, vn.Seq):
        return "[" + ",".join(norm(x) for x in v.items) + "]"
    if isinstance(v, vn.IterV):
        return "[" + ",".join(norm(x) for x in v.take()) + "]"
    if isinstance(v, (list, tuple)):
        return "[" + ",".join(norm(x) for x in v) + "]"
    if isinstance(v, vn.DictV):
        return "{" + ",".join(f"{k}:{norm(x)}" for k, x in sorted(v.d.items(), key=lambda t: str(t[0]))) + "}"
    if isinstance(v, dict):
        return norm(vn.DictV(v))
    return vn.key(v)


def jac_expect(order, symbs, scalar):
    rows = []
    for n in order:
        outer, args = n, None
        for w, o in (("tau", "tau"), ("omega", "omega"), ("N", "NormBRDF")):
            if n in symbs[w]:
                outer = o
                t = alg.call(f"d{w}_d{n}", [f"{k}=full({'A' if k in JSIZES else 'F'}_{k})" for k in sorted(symbs[w])])
                args = t
        e = sym(f"J_{outer}")
        if args is not None:
            e = e * args
        rows.append(f"valid({e.key()}" + (f";[row_{n},col_{n}]" if JSIZES[n] > 1 else "") + ")")
    return "stack[" + ",".join(rows) + "].T"


LAYOUTS = [({"tau": ["v", "w", "s"], "omega": ["u"], "N": ["x"]}, ["u", "t", "w", "x", "v"]),
           ({"tau": ["x"], "omega": ["v", "t"], "N": ["w", "s"]}, ["w", "v", "x", "u", "t"]),
           ({"tau": [], "omega": [], "N": []}, ["v", "x", "u"]),
           ({"tau": ["u"], "omega": [], "N": []}, ["x", "u"])]


def p_order(P, tier):
    rep = Report("P08", tier, "Abstract evaluation of the fit set-up (start values, bounds, residual function, Jacobian, result assembly, value distribution) on "
                 "symbolic parameter vectors whose order differs from every other order in play: each slot must carry the name, group and derivative it was created for.")
    for inter in (False, True):
        for prog in (False, True):
            tag = f"{'intermediate' if inter else 'plain'}:{'progress' if prog else 'silent'}"
            try:
                ev, f, ret, heap, call, log = run_performfit(P, inter, prog)
            except (vn.PyRaise, Mix) as e:
                rep.bad(f"fit:{tag}", f"performfit raises {e.kind}", "rt1/rtfits.py:rtfits.Fits.performfit")
                continue
            rep.analysed |= ev.visited
            b = call.get("b")
            if b is None:
                raise AnalysisBroken("performfit no longer calls scipy.optimize.least_squares")
            w = f"{f.file}:{f.qual}"
            same(rep, f"start:{tag}", b.get("x0"), [sym("start_" + n + str(i)) for n in ORDER for i in range(SIZES[n])], "start values follow the parameter order", f)
            same(rep, f"bounds:{tag}", b.get("bounds"), [[sym(f"{s}_{n}{i}") for n in ORDER for i in range(SIZES[n])] for s in ("lo", "hi")], "bounds follow the parameter order", f)
            want = {n: v for n, v in slots("P").items()}
            got = [x[0].get("res_dict") for x in log["model"]]
            same(rep, f"model-args:{tag}", got[0] if got else vn.Unknown("model not evaluated"), want, "the residuals are evaluated with the named slices of the parameter vector", f)
            got = [x[0].get("res_dict") for x in log["jac"]]
            same(rep, f"jac-args:{tag}", got[0] if got else vn.Unknown("jacobian not evaluated"), want, "the Jacobian is evaluated with the named slices of the parameter vector", f)
            if log["model"] and log["jac"]:
                rm, rj = vn.key(log["model"][0][0].get("R")), vn.key(log["jac"][0][0].get("R"))
                rep.check(rm == rj, f"same-R:{tag}", f"residuals ({rm}) and Jacobian ({rj}) use the same model object", w)
            same(rep, f"result:{tag}", heap.get(("self", "res_dict"), vn.Unknown("res_dict not assigned")), {n: v for n, v in slots("X").items()},
                 "the result dict holds the named slices of the solution", f)
            rep.check(vn.key(heap.get(("self", "fit_output"))) == "lsq_result", f"output:{tag}", "fit_output is the optimiser's result", w)
            for k, v in (("ftol", "FTOL"), ("max_nfev", "NFEV")):
                rep.check(vn.key(b.get(k)) == v, f"lsq_kwargs:{k}:{tag}", f"lsq_kwargs[{k!r}] reaches the optimiser", w)
            rep.check(vn.key(call.get("jac")) == "JAC", f"jac-fun:{tag}", "the analytic Jacobian is handed to the optimiser", w)
    for li, (symbs, order) in enumerate(LAYOUTS):
        for scalar in (False, True):
            key = f"jacobian:{li}:{'scalar' if scalar else 'array'}"
            try:
                ev, f, ret, lists = run_jac(P, scalar, symbs, order)
            except (vn.PyRaise, Mix) as e:
                rep.bad(key, f"_calc_jac raises {e.kind} for parameters {order}, symbols {symbs}", "rt1/rtfits.py:rtfits.Fits._calc_jac")
                continue
            rep.analysed |= ev.visited
            same(rep, key, ret, jac_expect(order, symbs, scalar), f"column of each parameter in {order} is its outer times inner derivative at its own positions", f)
            for n, b in lists:
                if n == "set":
                    raw = norm(vn.DictV({n: vn.Seq([sym(f"P_{n}_{i}") for i in range(JSIZES[n])]) for n in order}))
                    dist = norm(vn.DictV({n: Grid(sym(f"A_{n}")) for n in order}))
                    a, r = b.get("assign"), norm(b.get("res_dict"))
                    rep.check((a is True and r == raw) or (a is False and r == dist), key + ":values",
                              f"the model values are distributed exactly once before they are assigned (assign={vn.key(a)}, values {r[:200]})", f"{f.file}:{f.qual}")
    try:
        ev, f, ret = run_assign(P)
        rep.analysed |= ev.visited
        want = {n: alg.call("take", ["scatter[empty;" + ",".join(f"pos_{n}_{i}<-P_{n}_{i}" for i in range(SIZES[n])) + "]", "IDX"]) for n in ORDER}
        same(rep, "distribute", ret, want, "each group value is put at the dataset positions of its own group and taken at the grid positions", f)
    except vn.PyRaise as e:
        rep.bad("distribute", f"_assignvals raises {e.kind}", "rt1/rtfits.py:rtfits.Fits._assignvals")
    for qual in ("rtfits.Fits._set_calc_values", "rtfits.Fits._calc_slope_curv"):
        for funcs in ((), ("tau",), ("omega",), ("N",), ("tau", "omega", "N")):
            for assign in ((True, False) if "_set" in qual else (True,)):
                for rev in (False, True):
                    key = f"set:{qual.rsplit('.', 1)[1]}:{'+'.join(funcs) or 'direct'}:{'assign' if assign else 'asis'}:{'rev' if rev else 'fwd'}"
                    try:
                        ev, f, ret, heap, val = run_set(P, qual, funcs, assign, rev)
                    except vn.PyRaise as e:
                        rep.bad(key, f"{qual} raises {e.kind}", qual)
                        continue
                    rep.analysed |= ev.visited
                    for o, w in expect_set(funcs, val).items():
                        got = heap.get(o)
                        if got is None:
                            rep.bad(f"{key}:{o[1]}", f"{'.'.join(o)} is not assigned", f"{f.file}:{f.qual}")
                        else:
                            same(rep, f"{key}:{o[1]}", got, vn.key(w), f"{'.'.join(o)} gets its own value", f)
                    pd = heap.get(("R", "param_dict"))
                    wpd = {k: val[k] for k in ("h", "t", "x")}
                    if not isinstance(pd, vn.DictV):
                        rep.undecided(f"{key}:param_dict", f"R.param_dict is {vn.key(pd)[:200]}", f"{f.file}:{f.qual}")
                        continue
                    same(rep, f"{key}:param_dict", pd, wpd, "scattering parameters are handed over by name", f)
                    if "_set" in qual:
                        rep.check([k for k in pd.d] == ["x", "h", "t"], f"{key}:param_dict-order",
                                  f"the parameter order expected by the compiled coefficients is maintained (is {list(pd.d)})", f"{f.file}:{f.qual}")
    grouping.check(P, rep)
    rep.assume("the documented restriction that a fitted symbol enters at most one of tau, omega, NormBRDF and is not shared with the scattering functions")
    rep.minimum = 100
    return rep



# ----------------------------------------------------------------- P09
class DF(vn.ModelObj):
    def __init__(self, cols, index):
        self.cols, self.index = cols, index

    def key(self):
        return f"frame({vn.key(self.cols)},{vn.key(self.index)})"

    def method(self, ev, name, args, kw, env):
        if name in ("groupby", "first", "sort_index", "copy"):
            return self
        return NotImplemented


def frame(ev, a, k):
    b = dict(zip(("data", "index", "columns"), a))
    b.update(k)
    return DF(b.get("data"), b.get("index"))


class Parts(vn.ModelObj):
    """stack of the individual contributions"""

    def key(self):
        return "parts"

    def iter(self, ev):
        return [Grid(sym(f"part{i}")) for i in range(4)]

    def item(self, ev, idx):
        if isinstance(idx, int):
            return Grid(sym(f"part{idx}"))
        if isinstance(idx, vn.Seq) and len(idx.items) == 2 and isinstance(idx.items[1], MaskV):
            return Sel(idx.items[1])
        return NotImplemented

    def attr(self, ev, name, env):
        if name == "shape":
            return vn.Seq([4, sym("rows"), sym("cols")], "tuple")
        if name == "ndim":
            return 3
        return NotImplemented


class Sel(vn.ModelObj):
    def __init__(self, m):
        self.m = m

    def key(self):
        return f"parts[:, {vn.key(self.m)}]"

    def iter(self, ev):
        return [Grid(sym(f"part{i}")).sel(self.m) for i in range(4)]


class Grid2(Grid):
    def attr(self, ev, name, env):
        if name == "shape":
            return vn.Seq([sym("rows"), sym("cols")], "tuple")
        if name == "ndim":
            return 2
        return super().attr(ev, name, env)

    def new(self, **kw):
        d = dict(expr=self.expr, state=self.state, sparse=self.sparse, rows=self.rows)
        d.update(kw)
        return Grid2(**d)


class Row(vn.ModelObj):
    def __init__(self, i):
        self.i = i

    def key(self):
        return f"row{self.i}"

    def item(self, ev, idx):
        if vn.isnum(idx):
            c = vn.asrat(idx)
            if c.equals(vn.rat(-1)) or c.equals(sym(f"len_row{self.i}") - 1):
                return sym(f"last{self.i}")
            return sym(f"row{self.i}[{c.key()}]")
        return NotImplemented

    def attr(self, ev, name, env):
        return sym(f"{name}_row{self.i}")


class Ragged(vn.ModelObj):
    def key(self):
        return "ragged"

    def iter(self, ev):
        return [Row(i) for i in range(3)]


class Store2(vn.ModelObj):
    """rectangular buffer: per row the content of the segments [0, len(row)) and [len(row), end)"""

    def __init__(self, init):
        self.init = init
        self.seg = {(i, h): init for i in range(3) for h in "AB"}
        self.other = []

    def key(self):
        return self.init + "|" + ";".join(f"{i}{h}={v}" for (i, h), v in sorted(self.seg.items())) + "".join(self.other)

    def iter(self, ev):
        return [View(self, i) for i in range(3)]

    def item(self, ev, idx):
        if vn.isnum(idx) and vn.asrat(idx).const() is not None:
            return View(self, int(vn.asrat(idx).const()))
        return NotImplemented

    def attr(self, ev, name, env):
        return vn.Seq([3, sym("dim")], "tuple") if name == "shape" else NotImplemented

    def setitem(self, ev, idx, v, env):
        it = idx.items if isinstance(idx, vn.Seq) else [idx, vn.SliceV(None, None, None)]
        if len(it) == 2 and isinstance(it[1], vn.SliceV) and it[1].step is None and vn.isnum(it[0]) and vn.asrat(it[0]).const() is not None:
            self.put(int(vn.asrat(it[0]).const()), it[1], v)
            return None
        self.other.append(f"?<store at {vn.key(idx)}>")

    def put(self, i, sl, v):
        lo = "0" if sl.lo is None else vn.key(sl.lo)
        hi = "end" if sl.hi is None or vn.key(sl.hi) in ("n_dim", "len_rowmax") else vn.key(sl.hi)
        val = {True: "1", False: "0"}.get(v) if isinstance(v, bool) else vn.key(v)
        n = f"len_row{i}"
        if lo == "0" and hi in (n, "end"):
            self.seg[(i, "A")] = val
        if lo in ("0", n) and hi == "end":
            self.seg[(i, "B")] = val
        if not (lo in ("0", n) and hi in (n, "end")):
            self.other.append(f"{i}[{lo}:{hi}]={val}")


class View(vn.ModelObj):
    def __init__(self, buf, i):
        self.buf, self.i = buf, i

    def key(self):
        return f"{self.buf.key()}[{self.i}]"

    def setitem(self, ev, idx, v, env):
        if isinstance(idx, vn.SliceV):
            self.buf.put(self.i, idx, v)
        else:
            self.buf.other.append(f"?<store at {vn.key(idx)}>")


def run_rect(P, flags):
    f = P.func("general_functions.rectangularize")

    def ln(ev, a, k):
        if isinstance(a[0], Row):
            return sym(f"len_row{a[0].i}")
        if isinstance(a[0], Ragged):
            return 3
        return vn.Unknown("len")

    def full(ev, a, k):
        v = a[1] if len(a) > 1 else k.get("fill_value")
        return Store2("1" if v is True else "0" if v is False or v == 0 else vn.key(v))
    buf = lambda init: (lambda ev, a, k: Store2(init))
    ext = {"builtins.len": ln, "builtins.max": lambda ev, a, k: Row("max"), "numpy.empty": buf("empty"), "numpy.zeros": buf("0"), "numpy.full": full,
           "numpy.ones": buf("1"), "builtins.next": lambda ev, a, k: sym("first"), "builtins.iter": lambda ev, a, k: sym("iter"),
           "itertools.islice": lambda ev, a, k: sym("islice"), "numpy.array": lambda ev, a, k: sym("arr"), "builtins.list": lambda ev, a, k: a[0],
           "numpy.ma.masked_array": lambda ev, a, k: vn.Seq(["masked", a[0], k.get("mask", a[1] if len(a) > 1 else None)]),
           "numpy.ma.array": lambda ev, a, k: vn.Seq(["masked", a[0], k.get("mask", a[1] if len(a) > 1 else None)])}
    ev = vn.Evaluator(P, ext=ext)
    kw = {"array": Ragged(), "return_mask": False, "return_masked": False, "dim": None, "dtype": None}
    kw.update(flags)
    ret, heap = ev.run(f, kw=kw)
    return ev, f, ret


VALS = ";".join(f"{i}A=row{i};{i}B=last{i}" for i in range(3))
MASK = ";".join(f"{i}A=0;{i}B=1" for i in range(3))


def seg(v):
    """content of the buffers, independent of their initialisation"""
    if isinstance(v, Store2):
        return v.key().split("|", 1)[1]
    if isinstance(v, vn.Seq):
        return "[" + ",".join(seg(x) for x in v.items) + "]"
    return vn.key(v)


class DS(vn.ModelObj):
    def key(self):
        return "DATASET"

    def contains(self, ev, x):
        return True

    def item(self, ev, idx):
        return sym(f"DATASET[{idx}]") if isinstance(idx, str) else NotImplemented


def p_padding(P, tier):
    rep = Report("P09", tier, "Typestate of rectangular (padded) arrays over the abstract evaluation of the fit: everything that reaches the optimiser, a result frame "
                 "or an average must have its padding removed exactly once, and the padding routine marks exactly the positions it fills.")
    F = P.cls("rtfits.Fits")
    # padding routine
    for flags, want, what in (({}, VALS, "values"), ({"return_mask": True}, [VALS, MASK], "values and mask"),
                              ({"return_masked": True}, ["'masked'", VALS, MASK], "masked array"), ({"dim": Val("n_dim")}, VALS, "given dimension")):
        ev, f, ret = run_rect(P, flags)
        rep.analysed |= ev.visited
        w = want if isinstance(want, str) else "[" + ",".join(want) + "]"
        same(rep, f"pad:{what}", seg(ret), w, f"rectangularize ({what}): each row keeps its values, the rest repeats its last value and is marked", f)
    # residuals
    for inter in (False, True):
        for wts in ("grid", "scalar"):
            try:
                ev, f, ret, heap, call, log = run_performfit(P, inter, False, weights=wts)
            except Mix as e:
                rep.bad(f"residual:{wts}:{inter}", f"padded and unpadded values are mixed: {e.kind}", "rt1/rtfits.py:rtfits.Fits.performfit")
                continue
            rep.analysed |= ev.visited
            if "fun" not in call:
                raise AnalysisBroken("performfit no longer calls scipy.optimize.least_squares")
            wt = sym("WEIGHTS") if wts == "grid" else rat(1)
            want = Grid((sym("MODEL") - sym("DATA")) * wt, "valid")
            same(rep, f"residual:{wts}:{'intermediate' if inter else 'plain'}", call["fun"], want, "residuals are weight*(model-data) of the real measurements only", f)
    # jacobian
    for li, (symbs, order) in enumerate(LAYOUTS):
        try:
            ev, f, ret, lists = run_jac(P, False, symbs, order)
        except Mix as e:
            rep.bad(f"jacobian:{li}", f"padded and unpadded values are mixed: {e.kind}", "rt1/rtfits.py:rtfits.Fits._calc_jac")
            continue
        rep.analysed |= ev.visited
        w = f"{f.file}:{f.qual}"
        if not isinstance(ret, Stack):
            rep.undecided(f"jacobian:{li}", vn.key(ret)[:300], w)
            continue
        for r, n in zip(ret.rows, order):
            st = r.state if isinstance(r, Grid) else None
            rep.check(st == "valid" if st else None, f"jacobian:{li}:{n}", f"Jacobian entries of {n} cover the real measurements only (is {vn.key(r)[:200]})", w)
    # result frames
    op = dict(cached_members(P, F))
    op.update({"Fits.mask": lambda *a: MaskV(), "Fits._orig_index": lambda *a: Grid(sym("ORIG_INDEX"), "valid"),
               "Fits._assignvals": lambda *a: vn.DictV({n: Grid(sym(f"A_{n}")) for n in ORDER})})
    ext = {**GRID_EXT, "pandas.DataFrame": frame, "builtins.hasattr": lambda ev, a, k: True, "builtins.list": lambda ev, a, k: a[0] if a and isinstance(a[0], Grid) else ev.ext_plain("builtins.list", a, k)}
    ev = vn.Evaluator(P, opaque=op, ext=ext, attrs={"self.res_dict": vn.DictV({n: sym(n) for n in ORDER})})
    ev.exact_try = True
    f = P.find_prop(F, "res_df")
    try:
        ret, heap = ev.run(f, selfv=vn.Obj("self", F))
        rep.analysed |= ev.visited
        want = DF(vn.DictV({n: Grid(sym(f"A_{n}"), "valid") for n in ORDER}), Grid(sym("ORIG_INDEX"), "valid"))
        same(rep, "res_df", ret, want, "the result frame holds the values of the real measurements at their own index", f)
    except Mix as e:
        rep.bad("res_df", e.kind, f"{f.file}:{f.qual}")
    f = P.func("rtfits.Fits.calc_model")
    for parts in (False, True):
        o2 = dict(op)
        o2["Fits._calc_model"] = lambda *a: Parts() if parts else Grid2(sym("MODEL"))
        ev = vn.Evaluator(P, opaque=o2, ext=ext)
        ev.exact_try = True
        try:
            ret, heap = ev.run(f, selfv=vn.Obj("self", F))
        except Mix as e:
            rep.bad(f"calc_model:{parts}", e.kind, f"{f.file}:{f.qual}")
            continue
        rep.analysed |= ev.visited
        cols = {n: Grid(sym(f"part{i}"), "valid") for i, n in enumerate(("tot", "surf", "vol", "inter"))} if parts else {"tot": Grid(sym("MODEL"), "valid")}
        same(rep, f"calc_model:{'components' if parts else 'total'}", ret, DF(vn.DictV(cols), Grid(sym("ORIG_INDEX"), "valid")),
             "modelled values are returned for the real measurements at their own index", f)
    # data arrays and their mask stem from the same grouping
    def rect(ev, s, b, e):
        a = vn.key(b["array"]) + ("" if b.get("dim") is None else f";dim={vn.key(b['dim'])}")
        if b.get("return_mask") is True:
            return vn.Seq([Grid(sym(f"rect({a})")), sym(f"padding({a})")])
        return sym(f"rect({a})") if b.get("return_masked") is not True else sym(f"masked({a})")
    used = lambda *a: Used()
    for prop, want in (("inc", "rect(USED.inc)"), ("data", "rect(USED.sig)"), ("data_weights", "rect(USED.data_weights)"), ("mask", "padding(USED.orig_index)")):
        f = P.find_prop(F, prop)
        o2 = {k: v for k, v in op.items() if k != f"Fits.{prop}"}
        o2.update({"general_functions.rectangularize": rect, "Fits._dataset_used": used})
        ev = vn.Evaluator(P, opaque=o2, attrs={"self.dataset": DS()}, ext={"builtins.isinstance": lambda ev, a, k: "DataFrame" in vn.key(a[1])})
        ret, heap = ev.run(f, selfv=vn.Obj("self", F))
        rep.analysed |= ev.visited
        got = vn.key(ret)
        if prop == "mask":
            rep.check(got.startswith("padding(USED.") and ";" not in got, f"array:{prop}", f"mask marks the padding of the grouped dataset (is {got[:200]})", f"{f.file}:{f.qual}")
        else:
            same(rep, f"array:{prop}", got, want, f"{prop} is the padded column of the grouped dataset", f)
    from checks import startvals
    startvals.check(P, rep)
    rep.minimum = 30
    return rep


class Used(vn.ModelObj):
    def key(self):
        return "USED"

    def item(self, ev, idx):
        return UsedCol(idx) if isinstance(idx, str) else NotImplemented

    def attr(self, ev, name, env):
        return UsedCol(name)


class UsedCol(vn.ModelObj):
    def __init__(self, n):
        self.n = n

    def key(self):
        return f"USED.{self.n}"

    def attr(self, ev, name, env):
        return self if name == "values" else NotImplemented

    def method(self, ev, name, args, kw, env):
        return self if name in ("to_numpy", "tolist", "to_list") else NotImplemented


CHECKS = {"P08": p_order, "P09": p_padding}
