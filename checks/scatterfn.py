"""P04 numeric/symbolic twins, P05 Legendre expansions, P06 evaluation geometries"""
import ast
import math
import re

from rtsa import alg, vn
from rtsa.alg import PI, fn, rat, sym, power
from rtsa.model import AnalysisBroken
from rtsa.report import Report
from .rtcommon import compare

TH = ("theta_0", "theta_ex", "phi_0", "phi_ex")


def concrete(P):
    out = []
    for b in ("surface.Surface", "volume.Volume"):
        base = P.cls(b)
        for c in P.subclasses(base):
            out.append((base, c))
    return out


def own(P, c, base, name):
    """definition of `name` below the base class"""
    for k in P.mro(c):
        if k is base:
            return None
        if name in k.props:
            return k.props[name]
        if name in k.methods:
            return k.methods[name]
    return None


def ref_scat(a, t1, t2, p1, p2):
    c, s = (lambda x: fn("cos", x)), (lambda x: fn("sin", x))
    A = [rat(x) for x in a] if isinstance(a, tuple) else [alg.call("item", [a.key(), str(i)]) for i in range(3)]
    return (A[0] * c(t1) * c(t2) + A[1] * s(t1) * s(t2) * c(p1) * c(p2)
            + A[2] * s(t1) * s(t2) * s(p1) * s(p2))


def three(name):
    """the three scattering-angle parameters"""
    return vn.Seq([alg.call("item", [sym(name).key(), str(i)]) for i in range(3)])


def func_term(P, c, scat=None):
    ev = vn.Evaluator(P, opaque=({"Scatter.scat_angle": scat} if scat else {}), attrs={"self.a": three("self.a")})
    f = P.find_method(c, "_func")
    v, _ = ev.run(f, selfv=vn.Obj("self", c))
    return v, f, ev


class Named(vn.ModelObj):
    """a shape parameter that is given by name"""
    truthy = True

    def __init__(self, name):
        self.name, self.text = name, f"str({name})"

    def key(self):
        return self.name

    def attr(self, ev, name, env):
        return self.text if name == "name" else NotImplemented


class Direct(vn.ModelObj):
    """the hand-written numeric evaluation of a scattering function"""
    truthy = True

    def key(self):
        return "self._func_numeric"

    def call(self, ev, args, kw, env):
        return alg.call("apply", ["self._func_numeric"] + [vn.asrat(a) if vn.isnum(a) else vn.key(a) for a in args]
                        + [f"{k}={vn.key(x)}" for k, x in sorted(kw.items())])


def p_twins(P, tier):
    rep = Report("P04", tier, "For every scattering class with a hand-written numeric evaluation, the value-numbered numeric term "
                 "(parameter given as number and as named parameter) is compared with the symbolic closed form; the symbolic and numeric "
                 "generalised scattering angle are compared with the documented formula; evaluation entry points must bind each angle "
                 "to its own variable.")
    # scattering angle
    f1, f2 = P.func("scatter.Scatter.scat_angle"), P.func("scatter.Scatter._scat_angle_numeric")
    for f in (f1, f2):
        ev = vn.Evaluator(P)
        v, _ = ev.run(f, args=[sym("T0"), sym("TX"), sym("P0"), sym("PX"), three("A")], selfv=vn.Obj("self", f.cls))
        compare(rep, f"scat_angle:{f.name}", v, ref_scat(sym("A"), sym("T0"), sym("TX"), sym("P0"), sym("PX")), f,
                "generalised scattering angle", allowed={"item"})
        rep.analysed |= ev.visited
    n = 0
    for base, c in concrete(P):
        f = own(P, c, base, "_func_numeric")
        if f is None:
            continue
        n += 1
        S, fs, ev0 = func_term(P, c)
        rep.analysed |= ev0.visited
        # parameters that may be symbolic: attributes of self tested with isinstance(..., Symbol)
        for named in (False, True):
            ev = vn.Evaluator(P, facts=lambda t, named=named: named if t.startswith("isinstance(") else None, attrs={"self.a": three("self.a")})
            names = sorted({a for a in vn.asrat(S).atoms() if a.startswith("self.") and a != "self.a"})
            kw = {f"str({a})": sym(a) for a in names} if named else {}
            if named:
                kw = {"another": sym("X$"), **kw, "more": sym("Y$")}   # parameters of other functions are handed over as well
                ev.attrs.update({a: Named(a) for a in names})
            v, _ = ev.run(f, args=[sym(x) for x in TH], kw=kw, selfv=vn.Obj("self", c))
            compare(rep, f"twin:{c.qual}:named={named}", v, S, f,
                    f"numeric version of {c.name} ({'named parameter' if named else 'numeric parameter'}) equals the symbolic closed form",
                    allowed={"item"})
            rep.analysed |= ev.visited
    # entry points brdf()/p()
    for b, m in (("surface.Surface", "brdf"), ("volume.Volume", "p")):
        cls, f = P.cls(b), P.func(f"{b}.{m}")
        for numeric in (False, True):
            ev = vn.Evaluator(P, facts=lambda t, numeric=numeric: numeric if t.startswith("hasattr(") and "_func_numeric" in t else None)
            names = vn.DictV({"x1": sym("X1"), "x2": sym("X2")})
            try:
                v, _ = ev.run(f, kw={"t_0": sym("T0"), "t_ex": sym("TX"), "p_0": sym("P0"), "p_ex": sym("PX"), "param_dict": names},
                              selfv=vn.Obj("self", cls), heap={("self", "_func_numeric"): Direct()} if numeric else {})
            except vn.PyRaise as e:
                rep.bad(f"entry:{cls.name}.{m}:numeric={numeric}", f"evaluation with two named parameters raises {e.kind}", f"{f.file}:{f.qual}")
                continue
            if numeric:
                ref = alg.call("apply", ["self._func_numeric", sym("T0"), sym("TX"), sym("P0"), sym("PX"), "x1=X1", "x2=X2"])
            else:
                ref = alg.call("at", [sym("self._func"), "phi_0:=", sym("P0"), "phi_ex:=", sym("PX"), "theta_0:=", sym("T0"), "theta_ex:=", sym("TX"),
                                      "x1=X1", "x2=X2"])
            if isinstance(v, vn.Ite):
                v = v.b if vn.key(v.a) == vn.key(v.b) else v
            compare(rep, f"entry:{cls.name}.{m}:numeric={numeric}", v, ref, f,
                    "evaluation binds t_0,t_ex,p_0,p_ex to theta_0,theta_ex,phi_0,phi_ex and forwards all parameters",
                    allowed={"at", "apply"})
            rep.analysed |= ev.visited
    rep.minimum = 8
    return rep


# ------------------------------------------------------------------ Legendre
def legendre_of(f, t, deg_max=4):
    """derive the Legendre coefficient term (in n) of f(x) by structural rules.

    returns ("general", g(n)) for kernels based on 1/(1+t^2-2tx)^(3/2),
            ("finite", [c0..cd]) for polynomials in x."""
    x, n = sym("x$"), sym("n")
    K = 1 + t * t - 2 * t * x
    q = f * power(K, rat(alg.F(3, 2)))
    if "x$" not in f.atoms():
        return "finite", [f]
    if not f.den == alg.ONE_P or any(
        alg.ATOMS[a].kind != "sym" and "x$" in {z for y in alg.ATOMS[a].args if isinstance(y, alg.Rat) for z in y.atoms()}
        for a in f.atoms() if a != "x$"
    ):
        # kernel case
        co = poly_coefs(q, deg_max)
        if co is None:
            return None
        g = (2 * n + 1) * power(t, n) / (1 - t * t)
        tot = rat(0)
        cur = g
        for k, ck in enumerate(co):
            tot = tot + ck * cur
            cur = times_x(cur)
        return "general", tot
    co = poly_coefs(f, deg_max)
    if co is None:
        return None
    # x^k in Legendre polynomials: repeated multiplication on finite vectors
    out = [rat(0)] * (len(co) + 1)
    vec = [rat(1)]
    for k, ck in enumerate(co):
        for i, v in enumerate(vec):
            out[i] = out[i] + ck * v
        nv = [rat(0)] * (len(vec) + 1)
        for i, v in enumerate(vec):
            nv[i + 1] = nv[i + 1] + v * rat(alg.F(i + 1, 2 * i + 1))
            if i:
                nv[i - 1] = nv[i - 1] + v * rat(alg.F(i, 2 * i + 1))
        vec = nv
    return "finite", out


def times_x(g):
    n = sym("n")
    lo, hi = alg.subst(g, {"n": n - 1}), alg.subst(g, {"n": n + 1})
    return n / (2 * n - 1) * lo + (n + 1) / (2 * n + 3) * hi


def poly_coefs(q, dmax):
    """coefficients of q as polynomial in x$ (None if not polynomial)"""
    x = "x$"
    co = []
    cur = q
    fact = 1
    for k in range(dmax + 1):
        try:
            at0 = alg.subst(cur, {x: rat(0)})
        except alg.Undecided:
            return None
        co.append(at0 / fact)
        cur = alg.diff(cur, x)
        fact *= k + 1
        if cur.is_zero():
            return co
    return None


def p_legendre(P, tier):
    rep = Report("P05", tier, "The closed form of every scattering class is turned into its Legendre coefficients by generating-function / "
                 "recurrence rewriting of the extracted term and compared with the declared coefficient term; the series and the "
                 "linear combinations are value-numbered and compared with the defining sums.")
    scat = lambda ev, selfv, bound, extra: sym("x$")
    count = 0
    for base, c in concrete(P):
        lf = own(P, c, base, "legcoefs")
        ff = own(P, c, base, "_func")
        if lf is None or ff is None:
            continue
        count += 1
        v, f, ev = func_term(P, c, scat)
        rep.analysed |= ev.visited
        evl = vn.Evaluator(P, ext={"sympy.Piecewise": piecewise}, attrs={"self.a": three("self.a")})
        L, _ = evl.run(lf, selfv=vn.Obj("self", c))
        rep.analysed |= evl.visited
        key = f"legcoefs:{c.qual}"
        where = f"{lf.file}:{lf.qual}"
        try:
            t = sym("self.t")
            fx = rat(0) if isinstance(v, vn.Seq) else vn.asrat(v)
            if vn.is_unknown(v) or vn.is_unknown(L):
                rep.undecided(key, vn.key(v)[:200] + " / " + vn.key(L)[:200], where)
                continue
            if c.name == "CosineLobe" or isinstance(v, vn.Seq) or NONSMOOTH.search(fx.key()):
                cosine_lobe(P, c, rep, key, L, lf, f)
                continue
            d = legendre_of(fx, t)
            if d is None:
                rep.undecided(key, f"closed form outside the rule set: {fx.key()[:300]}", where)
                continue
            kind, g = d
            if kind == "general":
                v, bound = large(P, c, lf)
                if bound:   # piecewise definition: the general term above the bound, each order below it
                    compare(rep, key + ":general", v, g, lf, "coefficient of order n equals the one implied by the closed form")
                    for k in range(bound + 3):
                        compare(rep, f"{key}:n={k}", order(P, c, lf, k), at_n(g, k), lf, f"coefficient of order {k}")
                else:
                    compare(rep, key, L, g, lf, "coefficient of order n equals the one implied by the closed form")
            else:
                while len(g) > 1 and g[-1].is_zero():
                    g.pop()
                nc, nf = ncoefs(P, c)
                rep.check(nc is not None and nc >= len(g), f"{key}:ncoefs",
                          f"{c.name} declares {nc} coefficients; its closed form needs {len(g)}", where)
                for k in range(max(len(g), nc or 0) + 2):
                    ref = g[k] if k < len(g) else rat(0)
                    compare(rep, f"{key}:n={k}", order(P, c, lf, k), ref, lf, f"coefficient of order {k} of {c.name}")
        except alg.Undecided as e:
            rep.undecided(key, str(e), where)
    if count < 4:
        rep.undecided("legcoefs:count", f"only {count} scattering classes with closed form and coefficients found", "rt1/surface.py")
    nadir_norm(P, rep)
    series(P, rep)
    for base, c, meth, attr in (("surface.Surface", "surface.LinCombSRF", "_SRFcombiner", "SRFchoices"),
                                ("volume.Volume", "volume.LinCombV", "_Vcombiner", "Vchoices")):
        lincomb(P, rep, base, c, attr)
    azimuth(P, rep)
    rep.minimum = 25
    return rep


def piecewise(ev, args, kw):
    return vn.Seq([vn.Seq([a.items[0], a.items[1]], "tuple") for a in args])


def at_n(term, k):
    r = alg.subst(term, {"n": rat(k)})
    # KroneckerDelta of constants
    mp = {}
    for a in r.atoms():
        at = alg.ATOMS[a]
        if at.kind == "call" and at.extra == "KroneckerDelta":
            d = (at.args[0] - at.args[1]).const()
            if d is not None:
                mp[a] = rat(1 if d == 0 else 0)
    return alg.subst(r, mp) if mp else r


def order(P, c, lf, k):
    """the coefficient of order k: the coefficients evaluated with this number for the symbol n"""
    def symbol(ev, args, kw):
        return rat(k) if args[0] == "n" else sym(args[0]) if isinstance(args[0], str) else ev.ext_plain("sympy.Symbol", args, kw)

    def eq(ev, args, kw):
        d = (vn.asrat(args[0]) - vn.asrat(args[1])).const()
        return ev.unknown("Eq", None) if d is None else d == 0

    def delta(ev, args, kw):
        x = eq(ev, args, kw)
        return rat(int(x)) if isinstance(x, bool) else x

    def rel(test):
        def f(ev, args, kw):
            d = (vn.asrat(args[0]) - vn.asrat(args[1])).const()
            return ev.unknown("relation", None) if d is None else test(d)
        return f

    ev = vn.Evaluator(P, ext={"sympy.Symbol": symbol, "sympy.symbols": symbol, "sympy.Eq": eq, "sympy.KroneckerDelta": delta,
                              "sympy.Ne": rel(lambda d: d != 0), "sympy.Lt": rel(lambda d: d < 0), "sympy.Le": rel(lambda d: d <= 0),
                              "sympy.Gt": rel(lambda d: d > 0), "sympy.Ge": rel(lambda d: d >= 0),
                              "sympy.Piecewise": first_piece}, attrs={"self.a": three("self.a")})
    v, _ = ev.run(lf, selfv=vn.Obj("self", c))
    return at_n(vn.asrat(v), k) if vn.isnum(v) else v


class Large(vn.Evaluator):
    """evaluation for all orders n above a bound: comparisons of n with a constant are decided by the sign at infinity"""
    bound = 0

    def sign(self, a, b):
        if not (vn.isnum(a) and vn.isnum(b)):
            return None
        d = vn.asrat(a) - vn.asrat(b)
        be = alg.subst(d, {"n": rat(0)})
        al = (alg.subst(d, {"n": rat(1)}) - be).const()
        be = be.const()
        if al is None or be is None or not d.equals(rat(al) * sym("n") + rat(be)):
            return None
        if al == 0:
            return (be > 0) - (be < 0)
        self.bound = max(self.bound, math.floor(-be / al) + 1)
        return 1 if al > 0 else -1

    def cmp(self, op, a, b):
        s = self.sign(a, b) if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)) else None
        if s is None:
            return super().cmp(op, a, b)
        return {ast.Lt: s < 0, ast.LtE: s <= 0, ast.Gt: s > 0, ast.GtE: s >= 0}[type(op)]


def large(P, c, lf):
    """(term of order n for all n >= bound, bound)"""
    def rel(test):
        def f(ev, args, kw):
            s = ev.sign(args[0], args[1])
            return ev.unknown("relation", None) if s is None else test(s)
        return f

    ev = Large(P, ext={"sympy.Eq": rel(lambda s: s == 0), "sympy.Ne": rel(lambda s: s != 0), "sympy.Lt": rel(lambda s: s < 0),
                       "sympy.Le": rel(lambda s: s <= 0), "sympy.Gt": rel(lambda s: s > 0), "sympy.Ge": rel(lambda s: s >= 0),
                       "sympy.Piecewise": first_piece}, attrs={"self.a": three("self.a")})
    v, _ = ev.run(lf, selfv=vn.Obj("self", c))
    return v, ev.bound


def first_piece(ev, args, kw):
    for a in args:
        val, cond = a.items
        if cond is True or cond is False:
            if cond:
                return val
        else:
            return ev.unknown("Piecewise condition " + vn.key(cond), None)
    return ev.unknown("Piecewise without a matching branch", None)


def ncoefs(P, c):
    f = P.find_prop(c, "ncoefs")
    if f is None:
        return None, None
    ev = vn.Evaluator(P)
    v, _ = ev.run(f, selfv=vn.Obj("self", c))
    k = vn.asrat(v).const() if vn.isnum(v) else None
    return (int(k) if k is not None else None), f


NONSMOOTH = re.compile(r"\b(sign|abs|Abs|Max|Min|Heaviside|Piecewise|floor|ceiling|re|im|DiracDelta|maximum|minimum)\(")


UNDIFF = re.compile(r"\b(sign|abs|Abs|Max|Min|Heaviside|floor|ceiling|re|im|DiracDelta|maximum|minimum)\(")


class Side(vn.Evaluator):
    """evaluation for a scattering angle x of known sign: x = side * y$ with y$ > 0"""

    def __init__(self, P, side):
        self.side = side
        y = sym("y$")
        super().__init__(P, opaque={"Scatter.scat_angle": lambda ev, selfv, bound, extra: y * side})
        E = self.ext
        for m in ("sympy", "numpy", "symengine"):
            E[m + ".sign"] = lambda ev, a, k: self.by(a[0], lambda s, v: rat(s), "sign")
            for n in ("Abs", "abs", "absolute", "fabs"):
                E[m + "." + n] = lambda ev, a, k: self.by(a[0], lambda s, v: v * s, "abs")
            E[m + ".Heaviside"] = lambda ev, a, k: self.by(a[0], lambda s, v: rat(1 if s > 0 else 0) if s else vn.asrat(a[1]) if len(a) > 1 else rat(1) / 2, "Heaviside")
            for n in ("Max", "maximum"):
                E[m + "." + n] = lambda ev, a, k: self.by(vn.asrat(a[0]) - vn.asrat(a[1]), lambda s, v: vn.asrat(a[0] if s >= 0 else a[1]), "Max")
            for n in ("Min", "minimum"):
                E[m + "." + n] = lambda ev, a, k: self.by(vn.asrat(a[0]) - vn.asrat(a[1]), lambda s, v: vn.asrat(a[1] if s >= 0 else a[0]), "Min")
            E[m + ".Piecewise"] = self.pieces
        E["builtins.abs"] = E["sympy.Abs"]

    def sign(self, v):
        v = vn.asrat(v)
        k = v.const()
        if k is None:
            k = (v / sym("y$")).const()
        return None if k is None else (k > 0) - (k < 0)

    def by(self, v, f, what):
        s = self.sign(v)
        return self.unknown(what) if s is None else f(s, vn.asrat(v))

    def pieces(self, ev, a, k):
        for x in a:
            v, c = x.items
            if c is True:
                return v
            if c is not False:
                return self.unknown("Piecewise condition " + vn.key(c))
        return sym("nan")

    def cmp(self, op, a, b):
        if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)) and all(vn.isnum(v) for v in (a, b)) and "y$" in (vn.asrat(a) - vn.asrat(b)).atoms():
            s = self.sign(vn.asrat(a) - vn.asrat(b))
            if s is not None:
                return {ast.Lt: s < 0, ast.LtE: s <= 0, ast.Gt: s > 0, ast.GtE: s >= 0}[type(op)]
        return super().cmp(op, a, b)


def cosine_lobe(P, c, rep, key, L, lf, f):
    """max(x,0)^i / pi  -- closed coefficient formula (A13) of Quast & Wagner 2016 as reference"""
    i, n = sym("self.i"), sym("n")
    for side, ref in ((1, power(sym("y$"), i) / PI), (-1, power(rat(0), i) / PI)):
        ev = Side(P, side)
        v, _ = ev.run(f, selfv=vn.Obj("self", c))
        rep.analysed |= ev.visited
        compare(rep, f"func:{c.qual}:x{'>' if side > 0 else '<'}0", v, ref, f, "cosine lobe closed form max(x,0)^i/pi")
    g = lambda z: fn("gamma", z)
    ref = (1 / PI) * power(rat(2), -2 - i) * (1 + 2 * n) * power(PI, rat(alg.F(1, 2))) * g(1 + i) / (
        g((2 - n + i) / 2) * g((3 + n + i) / 2))
    compare(rep, key, L, ref, lf, "coefficients of the truncated cosine power (documented eq. A13)")


def nadir_norm(P, rep):
    """HG_nadirnorm: dividing factor N(t,a) equals the nadir hemispherical reflectance of the plain HG lobe:
    d/da (a^2 N/2) = (1-t^2) a (1+t^2-2ta)^(-3/2) and a^2 N -> 0 for a -> 0"""
    c = P.cls("surface.HG_nadirnorm")
    hg = P.cls("surface.HenyeyGreenstein")
    scat = lambda ev, selfv, bound, extra: sym("x$")
    v, f, ev = func_term(P, c, scat)
    h, _, _ = func_term(P, hg, scat)
    where = f"{f.file}:{f.qual}"
    try:
        N = vn.asrat(h) / vn.asrat(v)
        a0 = alg.call("item", [sym("self.a").key(), "0"]).single_atom()
        A = sym("A$")
        if "x$" in N.atoms() and not alg.diff(N, "x$").is_zero():
            rep.bad("nadirnorm:shape", f"normalised lobe is not a multiple of the HG lobe", where)
            return
        N = alg.subst(N, {a0: A, "x$": rat(0)})
        t = sym("self.t")
        G = A * A * N / 2
        compare(rep, "nadirnorm:derivative", alg.diff(G, "A$"), (1 - t * t) * A * power(1 + t * t - 2 * t * A, rat(alg.F(-3, 2))), f,
                "normalisation factor is the nadir hemispherical integral of the lobe (derivative)")
        r = sym("R$")
        # at a = 0 : sqrt((1+t^2)^2) = 1+t^2
        G0 = alg.subst(G, {"A$": rat(0)})
        mp = {}
        for at in G0.atoms():
            o = alg.ATOMS[at]
            if o.kind == "root" and o.extra == 2 and o.args[0].equals((1 + t * t) * (1 + t * t)):
                mp[at] = 1 + t * t
        compare(rep, "nadirnorm:origin", alg.subst(G0, mp), rat(0), f, "normalisation integral vanishes for an empty range")
    except alg.Undecided as e:
        rep.undecided("nadirnorm", str(e), where)


def geom_values(g, sfx=""):
    """expected symbolic angles for a geometry specification"""
    arr = {"theta_0": "t_0", "theta_ex": "t_ex", "phi_0": "p_0", "phi_ex": "p_ex"}
    uq = lambda a: alg.call("item", [alg.call("uniq", [sym(a)]).key(), "0"])
    if g == "mono":
        p0 = uq("p_0")
        return {"theta_0": sym("theta_0"), "theta_ex": sym("theta_0"), "phi_0": p0, "phi_ex": p0 + PI}
    out = {}
    for ch, k in zip(g, TH):
        out[k] = sym(k) if ch == "v" else uq(arr[k])
    return out


def series(P, rep):
    for b, isvol in (("surface.Surface", False), ("volume.Volume", True)):
        cls, f = P.cls(b), P.func(f"{b}.legexpansion")
        for g in GEOMETRIES:
            A = Angles()
            ev = vn.Evaluator(P, attrs={"self.legcoefs": alg.call("L", [sym("n")]), "self.a": three("self.a")}, ext=A.ext)
            v, _ = ev.run(f, kw={"geometry": g}, selfv=vn.Obj("self", cls))
            G = geom_values(g)
            a = sym("self.a")
            if isvol:
                x = ref_scat(a, PI - G["theta_0"], sym("theta_s"), G["phi_0"], sym("phi_s"))
            else:
                x = ref_scat(a, sym("theta_s"), G["theta_ex"], sym("phi_s"), G["phi_ex"])
            ref = alg.mksum(rat(0), sym("self.ncoefs") - 1,
                            alg.call("L", [sym("n")]) * alg.call("legendre", [sym("n"), x]), "n")
            compare(rep, f"series:{cls.name}:{g}", A.clean(v), ref, f, "Legendre series over orders 0..ncoefs-1 in the scattering angle",
                    allowed={"item", "L", "uniq"})
            rep.analysed |= ev.visited


GEOMETRIES = ("mono", "vvvv", "fvvv", "vfvv", "vvfv", "vvvf", "ffff")
AVALS = ((2, 3, 5), (7, 3, 11))   # two scattering-angle parametrisations sharing one entry


def lincomb(P, rep, basename, clsname, attr):
    base, c = P.cls(basename), P.cls(clsname)
    init = P.find_method(c, "__init__")
    for same, ncs in [(x, y) for x in (True, False) for y in ((2, 5, 3), (5, 3, 2), (3, 2, 5))]:
        ev = vn.Evaluator(P, facts=lambda t: None)
        ev.instantiate = True
        names = ["F1", "F2", "F3"]
        objs = [vn.Obj(n, base) for n in names]
        for i, n in enumerate(names):
            ev.attrs[f"{n}.a"] = vn.Seq([rat(x) for x in (AVALS[0] if (same or i != 1) else AVALS[1])])
            ev.attrs[f"{n}.legcoefs"] = alg.call("L" + n, [sym("n")])
            ev.attrs[f"{n}.ncoefs"] = ncs[i]
            ev.attrs[f"{n}.name"] = n
        w = [sym(f"w{i}") for i in (1, 2, 3)]
        choices = vn.Seq([vn.Seq([wi, o]) for wi, o in zip(w, objs)])
        A = Angles()
        ev.ext.update({**A.ext, "builtins.max": vmax, "numpy.max": vmax, "numpy.amax": vmax,
                       "builtins.min": vmin, "numpy.min": vmin, "numpy.amin": vmin})
        self_ = vn.Obj("LC", c)
        key = f"lincomb:{c.name}:{'equal' if same else 'different'}-a:{'/'.join(map(str, ncs))}"
        heap = {}
        env = {"$heap": heap, "$func": init}
        kw = {attr: choices}
        r = ev.call_func(vn.FuncV(init, self_), [], kw, init.node, heap)
        where = f"{init.file}:{init.qual}"
        env = {"$heap": heap, "$func": init}
        if isinstance(r, vn.Unknown):
            rep.undecided(key, r.why, where)
            continue
        fv = ev.getattr(self_, "_func", env)
        ref = rat(0)
        for wi, n in zip(w, names):
            ref = ref + wi * sym(f"{n}._func")
        compare(rep, key + ":function", fv, ref, P.find_method(c, "_func") or init, "combined function is the weighted sum")
        nc = ev.getattr(self_, "ncoefs", env)
        has = ("LC", "ncoefs") in heap or P.find_prop(c, "ncoefs") is not None
        nv = vn.asrat(nc).const() if vn.isnum(nc) else None
        rep.check(has and nv == max(ncs) if nv is not None or not has else None, key + ":ncoefs",
                  f"combined series length is {vn.key(nc) if has else 'never set'}; expected {max(ncs)}", where)
        lg = ev.getattr(self_, "legexpansion", env)
        if ("LC", "legexpansion") not in heap and own(P, c, base, "legexpansion") is None:
            rep.bad(key + ":series", f"{c.name} never installs the combined Legendre series", where)
            continue
        for geo in GEOMETRIES if ncs == (2, 5, 3) else ("vvvv",):
            g = [sym(x) for x in ("t_0", "t_ex", "p_0", "p_ex")] + [geo]
            v = ev.apply(lg, g, {}, init.node, env)
            G = geom_values(geo)
            ref = rat(0)
            groups = [names] if same else [["F1", "F3"], ["F2"]]
            for grp in groups:
                a = AVALS[0] if "F1" in grp else AVALS[1]
                if "Volume" in basename:
                    x = ref_scat(a, PI - G["theta_0"], sym("theta_s"), G["phi_0"], sym("phi_s"))
                else:
                    x = ref_scat(a, sym("theta_s"), G["theta_ex"], sym("phi_s"), G["phi_ex"])
                co = rat(0)
                for n in grp:
                    co = co + w[names.index(n)] * alg.call("L" + n, [sym("n")])
                N = rat(max(ncs[names.index(n)] for n in grp))
                ref = ref + alg.mksum(rat(0), N - 1, co * alg.call("legendre", [sym("n"), x]), "n")
            compare(rep, key + ":series:" + geo, v, ref, P.find_method(c, "_set_legexpansion") or init,
                    f"combined Legendre series is the weighted sum of the components' series (geometry {geo!r})",
                    allowed={"item", "uniq", "max", "min", "LF1", "LF2", "LF3"})
        rep.analysed |= ev.visited


def vmin(ev, args, kw):
    items = args if len(args) > 1 else ev.concrete(args[0])
    if items is None:
        return alg.call("min", [vn.key(args[0])])
    cs = [vn.asrat(x).const() if vn.isnum(x) else None for x in items]
    if cs and None not in cs:
        return rat(min(cs))
    ks = sorted({vn.key(x) for x in items})
    return items[0] if len(ks) == 1 else alg.call("min", ks)


def vmax(ev, args, kw):
    items = args if len(args) > 1 else ev.concrete(args[0])
    if items is None:
        return alg.call("max", [vn.key(args[0])])
    cs = [vn.asrat(x).const() if vn.isnum(x) else None for x in items]
    if cs and None not in cs:
        return rat(max(cs))
    ks = sorted({vn.key(x) for x in items})
    if len(ks) == 1:
        return items[0]
    return alg.call("max", ks)


def azimuth(P, rep):
    """integral of cos(x)^i over 0..2pi, per 2*pi:  binomial(i,i/2)/2^i (even), 0 (odd)"""
    f = P.func("rt1.RT1._cosintegral")
    for k in range(0, 13):
        ev = vn.Evaluator(P, ext={k: binom for k in ("sympy.binomial", "math.comb", "scipy.special.comb", "scipy.special.binom")})
        v, _ = ev.run(f, kw={"i": k}, selfv=vn.Obj("self", P.cls("rt1.RT1")))
        from math import comb
        ref = rat(alg.F(comb(k, k // 2), 2 ** k)) if k % 2 == 0 else rat(0)
        compare(rep, f"cosintegral:i={k}", v, ref, f, "mean of cos^i over a full azimuth turn")
        rep.analysed |= ev.visited


def binom(ev, args, kw):
    from math import comb
    a, b = (vn.asrat(x).const() for x in args[:2])
    if a is not None and b is not None and a.denominator == 1 and b.denominator == 1:
        return rat(comb(int(a), int(b)))
    return alg.call("binomial", [vn.asrat(x) for x in args[:2]])


# ------------------------------------------------------------------ geometry
ARR = ("t_0", "t_ex", "p_0", "p_ex")


class Uniq(vn.ModelObj):
    """the unique values of one of the angle arrays (one value if it is constant, two otherwise)"""

    def __init__(self, name, const):
        self.name, self.const = name, const
        self.len = 1 if const else 2

    def key(self):
        return f"uniq({self.name})"

    def at(self, i):
        i = i if self.const else i % 2
        return alg.call("item", [alg.call("uniq", [sym(self.name)]).key(), str(i)])

    def item(self, ev, idx):
        i = vn.asrat(idx).const() if vn.isnum(idx) else None
        if i is None:
            return NotImplemented
        if not -self.len <= i < self.len:
            raise vn.PyRaise("IndexError")
        return self.at(int(i) % self.len)

    def attr(self, ev, name, env):
        return {"size": rat(self.len), "ndim": rat(1), "shape": vn.Seq([rat(self.len)], "tuple")}.get(name, NotImplemented)

    def method(self, ev, name, args, kw, env):
        if name in ("item", "squeeze", "pop") and not args:
            if not self.const:
                if name == "item":
                    raise vn.PyRaise("ValueError")
                return NotImplemented
            return self.at(0)
        if name in ("ravel", "flatten", "copy"):
            return self
        if name == "tolist":
            return vn.Seq([self.at(i) for i in range(self.len)])
        if name in ("min", "max") and self.const:
            return self.at(0)
        return NotImplemented

    def iter(self, ev):
        return [self.at(i) for i in range(self.len)]


class Angles:
    """meaning of the functions that inspect an angle array, for arrays that are constant except for `varying`"""

    def __init__(self, varying=()):
        self.varying = varying
        self.ext = {}
        for n in ("numpy.unique", "builtins.set", "pandas.unique", "builtins.frozenset"):
            self.ext[n] = self.wrap(n, lambda a, k: Uniq(a, a not in varying) if not k else None)
        for n in ("numpy.ptp",):
            self.ext[n] = self.wrap(n, lambda a, k: rat(0 if a not in varying else 1))
        for n in ("numpy.min", "numpy.max", "numpy.amin", "numpy.amax"):
            self.ext[n] = self.wrap(n, lambda a, k: Uniq(a, True).at(0) if a not in varying else None)
        for n in ("numpy.ravel", "numpy.atleast_1d", "numpy.asarray", "numpy.array"):
            self.ext[n] = self.wrap(n, lambda a, k: sym(a))
        for n in ("numpy.allclose", "numpy.array_equiv", "numpy.array_equal"):
            self.ext[n] = self.close
        for n in ("builtins.len", "numpy.size"):
            self.ext[n] = lambda ev, a, k, n=n: rat(a[0].len) if a and isinstance(a[0], Uniq) else ev.ext_plain(n, a, k)
        self.ext["numpy.all"] = self.all
        self.ext[".all"] = lambda ev, v, a, k: self.all(ev, [v], k)
        self.ext[".ravel"] = self.ext[".flatten"] = lambda ev, v, a, k: v if self.arr(v) else NotImplemented

    def arr(self, v):
        return v.key() if isinstance(v, alg.Rat) and v.key() in ARR else None

    def wrap(self, name, h):
        def f(ev, args, kw):
            a = self.arr(args[0]) if args else None
            r = h(a, kw) if a else None
            return ev.ext_plain(name, args, kw) if r is None else r
        return f

    def first(self, v):
        """`v` is one element of an angle array"""
        if isinstance(v, alg.Rat):
            for a in ARR:
                if v.key() in (f"item({a},0)", f"item({a},-1)", f"item(uniq({a}),0)", f"m:item({a},0)"):
                    return a
        return None

    def close(self, ev, args, kw):
        for x, y in (args[:2], args[:2][::-1]):
            a = self.arr(x)
            if a and self.first(y) == a:
                return a not in self.varying
        return vn.Cond(f"close({','.join(vn.key(x) for x in args)})")

    def all(self, ev, args, kw):
        v = args[0]
        if isinstance(v, bool):
            return v
        if isinstance(v, vn.Cond) and "==" in v.text:
            x, y = v.text.split("==", 1)
            for x, y in ((x, y), (y, x)):
                if x in ARR and y in (f"item({x},0)", f"item({x},-1)", f"item(uniq({x}),0)"):
                    return x not in self.varying
        return ev.ext_plain("numpy.all", args, kw)

    def clean(self, term):
        """an element of a constant array is its unique value"""
        mp = {}
        if isinstance(term, alg.Rat):
            for t in term.atoms():
                for a in ARR:
                    if t in (f"item({a},0)", f"item({a},-1)"):
                        mp[t] = Uniq(a, True).at(0)
        return alg.subst(term, mp) if mp else term


def p_geometry(P, tier):
    rep = Report("P06", tier, "Value numbering of every function taking an evaluation geometry, specialised to all 16 fixed/variable "
                 "patterns, to 'mono' and to malformed patterns: which angle each symbolic variable is replaced by, and for which "
                 "non-constant angle array the function rejects its input.")
    pats = ["".join(x) for x in __import__("itertools").product("vf", repeat=4)]
    sites = 0
    for b, meths in (("surface.Surface", ("legexpansion", "brdf_theta_diff")), ("volume.Volume", ("legexpansion", "p_theta_diff"))):
        cls = P.cls(b)
        for m in meths:
            f = P.func(f"{b}.{m}")
            sites += 1
            where = f"{f.file}:{f.qual}"

            def run(g, varying=()):
                A = Angles(varying)
                ev = vn.Evaluator(P, attrs={"self.legcoefs": alg.call("L", [sym("n")]), "self.a": three("self.a")}, ext=A.ext,
                                  facts=lambda t: False if t.startswith("isinstance(") else None)
                ev.exact_try = True
                kw = {"geometry": g}
                if m != "legexpansion":
                    kw.update({"n": 1, "return_symbolic": True})
                try:
                    ret, env = ev.block(f.node.body, entry_env(ev, f, cls, kw))
                except vn.PyRaise:
                    ret = vn.RAISED
                rep.analysed |= ev.visited
                return (ret if ret is vn.RAISED else A.clean(ret)), ev

            for g in pats + ["mono", "xvvv", "vxvv", "vvxv", "vvvx", "xfff", "fxff", "ffxf", "fffx"]:
                key = f"{cls.name}.{m}:{g}"
                ret, ev = run(g)
                if "x" in g:
                    rep.check(ret is vn.RAISED, key, "an unknown geometry character is rejected", where)
                    continue
                if ret is vn.RAISED:
                    rep.bad(key, "a valid geometry with constant angles is rejected on every path", where)
                    continue
                # guards: one non-constant array at a time
                need = {"p_0"} if g == "mono" else {a for ch, a in zip(g, ARR) if ch == "f"}
                for a in ARR:
                    r, e = run(g, (a,))
                    if a in need:
                        un = [t for t in e.asserts if a in t]
                        rep.check(True if r is vn.RAISED else (None if un else False), f"{key}:guard:{a}",
                                  f"a non-constant {a} is rejected if it is declared fixed {un[:1] or ''}", where)
                    else:
                        rep.check(r is not vn.RAISED, f"{key}:guard:{a}", f"{a} may take several values if it is not declared fixed", where)
                G = geom_values(g)
                if m == "legexpansion":
                    a = sym("self.a")
                    if "Volume" in b:
                        x = ref_scat(a, PI - G["theta_0"], sym("theta_s"), G["phi_0"], sym("phi_s"))
                    else:
                        x = ref_scat(a, sym("theta_s"), G["theta_ex"], sym("phi_s"), G["phi_ex"])
                    ref = alg.mksum(rat(0), sym("self.ncoefs") - 1,
                                    alg.call("L", [sym("n")]) * alg.call("legendre", [sym("n"), x]), "n")
                elif g != "mono" and g[1] == "f":
                    ref = rat(0)
                else:
                    inner = alg.call("at", [sym("self._func")] + [z for k in sorted(G) for z in (k + ":=", G[k])])
                    ref = alg.call("D", [inner, G["theta_ex"], rat(1)])
                compare(rep, key, ret, ref, f, f"geometry {g!r} substitutes each angle by its own value",
                        allowed={"at", "D", "item", "uniq", "L"})
    rep.minimum = 140
    return rep


def entry_env(ev, f, cls, kw):
    env = {"$heap": {}, "$func": f}
    names = f.params()
    env[names[0]] = vn.Obj("self", cls)
    for n in names[1:]:
        env[n] = kw.get(n, sym(n))
    ev.visited.add(f.qual)
    return env


CHECKS = {"P04": p_twins, "P05": p_legendre, "P06": p_geometry}
