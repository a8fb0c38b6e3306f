"""P01 forward model, P02 jacobian, P03 slopes/curvatures (rt1.py)"""
import ast

from rtsa import alg, vn
from rtsa.alg import PI, fn, exp, rat, sym
from rtsa.report import Report
from . import scatterfn
from .rtcommon import Core, compare, ANG

LN10 = lambda: fn("log", rat(10))


def p_forward(P, tier):
    rep = Report("P01", tier, "Value numbering of RT1.calc/surface/volume/interaction and everything they inline; "
                 "each returned term is compared (algebraic normal form) with the documented first-order formulas, "
                 "for monostatic and bistatic geometry.")
    for mono in (True, False):
        g = "mono" if mono else "bistatic"
        c = Core(P, mono)
        if mono:
            f = P.func("rt1.RT1.surface")
            compare(rep, "geometry:t_ex", c.t_ex, c.t_0, f, "monostatic exit zenith angle equals the incidence angle")
            compare(rep, "geometry:p_ex", c.p_ex, c.p_0 + PI, f, "monostatic exit azimuth is incidence azimuth + pi")
        else:
            s = {a.key() for a in (c.t_0, c.t_ex, c.p_0, c.p_ex)}
            rep.check(len(s) == 4 and all(getattr(c, a).single_atom() for a in ANG), "geometry:independent",
                      f"bistatic angles are four independent inputs {sorted(s)}", "rt1/rt1.py:RT1")
        v, f = c.run("rt1.RT1.surface")
        compare(rep, f"surface:{g}", v, c.ref_surface(), f, f"surface contribution ({g})")
        v, f = c.run("rt1.RT1.volume")
        compare(rep, f"volume:{g}", v, c.ref_volume(), f, f"volume contribution ({g})")
        # ---------------------------------------------------- interaction
        for backend in ("symengine", "sympy"):
            c = Core(P, mono, facts={"'symengine'==self.lambda_backend": backend == "symengine",
                                     "'sympy'==self.lambda_backend": backend == "sympy"})
            install_fn(c)
            v, f = c.run("rt1.RT1.interaction")
            compare(rep, f"interaction:{g}:{backend}", v, ref_interaction(c), f,
                    f"interaction contribution ({g}, {backend} backend)")
        rep.analysed |= c.ev.visited
    # -------------------------------------------------------------- calc()
    comps = {"RT1.surface": lambda *a: sym("I_SURF"), "RT1.volume": lambda *a: sym("I_VOL"),
             "RT1.interaction": lambda *a: sym("I_INT")}
    f = P.func("rt1.RT1.calc")
    for intq in (True, False):
        for scalar in (True, False):
            for pos in ((True, False) if scalar else (True,)):
                c = Core(P, True, opaque=comps, facts={
                    "True==self.int_Q": intq, "self.int_Q": intq, "self.int_Q==True": intq, "False==self.int_Q": not intq,
                    "~isinstance(self.V.tau": scalar, "0<self.V.tau": pos, "self.V.tau<=0": not pos,
                    "0==self.V.tau": not pos, "~isnan": False,
                })
                v, _ = c.ev.run(f, selfv=c.selfv)
                tag = f"calc:int_Q={intq}:scalar={scalar}:tau>0={pos}"
                unwrap(rep, v, f, tag, intq, pos)
                rep.analysed |= c.ev.visited
    from .expansion import binding, expansion
    expansion(P, rep, tier)
    binding(P, rep)
    rep.assume("array broadcasting is element-wise; NaN produced by tau == 0 in the interaction term is replaced by 0 "
               "(that replacement branch is excluded from the comparison)")
    rep.assume("the documented interaction formula's prefactor uses exp(-tau/mu_ex)F_int(0,ex) + exp(-tau/mu_0)F_int(ex,0)")
    rep.minimum = 60
    return rep


def unwrap(rep, v, f, tag, intq, pos):
    where = f"{f.file}:{f.qual}"
    want = [sym("I_SURF"), sym("I_VOL") if pos else rat(0)]
    if intq:
        want.append(sym("I_INT") if pos else rat(0))
    if isinstance(v, vn.Unknown):
        rep.undecided(tag, v.why, where)
        return
    if not isinstance(v, vn.Seq) or len(v.items) != len(want) + 1:
        rep.bad(tag, f"calc() must return (total, surface, volume{', interaction' if intq else ''}); got {vn.key(v)[:300]}", where)
        return
    tot = rat(0)
    for w in want:
        tot = tot + w
    for nm, g, w in zip(("total", "surface", "volume", "interaction"), v.items, [tot] + want):
        g = scal(g)
        compare(rep, f"{tag}:{nm}", g, w, f, f"calc() component '{nm}'")


def scal(v):
    """np.array([0.0]) -> 0"""
    if isinstance(v, vn.Seq) and len(v.items) == 1:
        return v.items[0]
    return v


def install_fn(c):
    """model self._fnevals as an uninterpreted family fn_n(theta_0, phi_0, theta_ex, phi_ex, **params)"""
    N = sym("self.V.ncoefs") + sym("self.SRF.ncoefs") - 1

    def call(ev, args, kw):
        if len(args) == 1 and isinstance(args[0], vn.Seq):
            args = args[0].items
        v = vn.fresh("n")
        return vn.Arr(v, N, alg.call("fn", [sym(v)] + [vn.asrat(a) if vn.isnum(a) else vn.key(a) for a in args]))

    c.ev.ext["rt1:fnevals"] = call
    c.ev.opaque["RT1._fnevals"] = lambda ev, selfv, b, e: vn.Ext("rt1:fnevals")
    c.N = N


def ref_fint(c, th1, ph1, th2, ph2):
    mu = fn("cos", th1)
    tau = c.tau
    n, k = vn.fresh("n"), vn.fresh("k")
    K, Nn = sym(k), sym(n)
    e = exp(-tau / mu)
    hlp = e * fn("log", mu / (1 - mu)) - fn("expi", -tau) + e * fn("expi", tau / mu - tau)
    s2 = alg.mksum(rat(1), Nn + 1, alg.power(mu, -K) * (alg.call("expn", [K + 1, tau]) - e / K), k)
    f = alg.call("fn", [Nn, th1, ph1, th2, ph2, "*" + alg.call("m:values", ["self.param_dict"]).key()])
    return alg.mksum(rat(0), c.N - 1, f * alg.power(mu, Nn + 1) * (s2 + hlp), n)


def ref_interaction(c):
    f1 = ref_fint(c, c.t_0, c.p_0, c.t_ex, c.p_ex)
    f2 = ref_fint(c, c.t_ex, c.p_ex, c.t_0, c.p_0)
    return c.R * (1 - c.bsf) * c.I0 * c.mu_0 * c.omega * (
        exp(-c.tau / c.mu_ex) * f1 + exp(-c.tau / c.mu_0) * f2
    )


# ------------------------------------------------------------------ jacobian
def transform(c, I, db, sig0):
    if sig0:
        I = 4 * PI * c.mu_0 * I
    if db:
        I = 10 * fn("log", I) / LN10()
    return I


def dtransform(c, I, dI, db, sig0):
    """d/dx of the unit transform for x independent of the angles"""
    if db:
        return 10 / LN10() * dI / I
    if sig0:
        return 4 * PI * c.mu_0 * dI
    return dI


def p_jacobian(P, tier):
    rep = Report("P02", tier, "Value numbering of RT1.jacobian specialised (constant propagation) to every parameter, unit "
                 "and geometry; each entry is compared with the term obtained by differentiating the *extracted* "
                 "surface()+volume() terms (own differentiation rules, no evaluation).")
    params = {"omega": "self.V.omega", "tau": "self.V.tau", "NormBRDF": "self.SRF.NormBRDF", "bsf": "self.bsf", "x$": None}
    f = P.func("rt1.RT1.jacobian")
    for mono in (True, False):
        # brdf/p are inlined down to at(F; angles) so that the parameter derivative can be compared
        for name, atom in params.items():
            for db in (False, True):
                for sg in (False, True):
                    inline = atom is None
                    facts = {"~'x$' in": True}
                    if inline:
                        facts.update({"~hasattr(": False, "~isinstance(": False})
                    c = Core(P, mono, facts=facts)
                    if inline:
                        for k in ("Surface.brdf", "Volume.p"):
                            c.ev.opaque.pop(k)
                    S, fs = c.run("rt1.RT1.surface")
                    V, fv = c.run("rt1.RT1.volume")
                    I = vn.asrat(S) + vn.asrat(V)
                    key = f"jac:{name}:dB={db}:sig0={sg}:{'mono' if mono else 'bistatic'}"
                    try:
                        if atom is not None:
                            dI = alg.diff(I, atom)
                        else:
                            dI = alg.diff(I, "x$", rules=lambda at: ddummy(at))
                        ref = dtransform(c, I, dI, db, sg)
                    except alg.Undecided as e:
                        rep.undecided(key, str(e), f.qual)
                        continue
                    v, _ = c.ev.run(f, selfv=c.selfv, kw={"dB": db, "sig0": sg, "param_list": vn.Seq([name])})
                    if isinstance(v, vn.Seq) and len(v.items) == 1:
                        if name == "tau" and known_tau(c, v.items[0], ref, dI, I, db, sg):
                            rep.bad("tau-derivative:volume-exit-path", "the volume part of d(total)/d(tau) weights the attenuation of the "
                                    "exit path by mu_ex instead of 1/mu_ex", f"{f.file}:{f.qual}")
                            continue
                        compare(rep, key, v.items[0], ref, f, f"d(total)/d({name}) dB={db} sig0={sg}")
                    elif isinstance(v, vn.Unknown) or not isinstance(v, vn.Seq):
                        rep.undecided(key, f"jacobian value {vn.key(v)[:200]}", f.qual)
                    else:
                        rep.bad(key, f"jacobian for one parameter has {len(v.items)} entries", f"{f.file}:{f.qual}")
                    rep.analysed |= c.ev.visited
        # order of the entries
        c = Core(P, mono)
        order = ["bsf", "omega", "NormBRDF", "tau"]
        v, _ = c.ev.run(f, selfv=c.selfv, kw={"dB": False, "sig0": False, "param_list": vn.Seq(order)})
        singles = [c.ev.run(f, selfv=c.selfv, kw={"dB": False, "sig0": False, "param_list": vn.Seq([o])})[0] for o in order]
        if isinstance(v, vn.Seq) and all(isinstance(s, vn.Seq) and len(s.items) == 1 for s in singles):
            good = len(v.items) == 4 and all(vn.asrat(a).equals(vn.asrat(s.items[0])) for a, s in zip(v.items, singles))
            rep.check(good, f"jac:order:{'mono' if mono else 'bistatic'}", "entries follow the order of the requested parameters", f.qual)
        else:
            rep.undecided("jac:order", vn.key(v)[:200], f.qual)
    rep.assume("scattering functions do not depend on tau, omega, NormBRDF, bsf (checked by an effect closure below)")
    effect_independence(P, rep)
    rep.minimum = 40
    return rep


def known_tau(c, got, ref, dI, I, db, sg):
    """recognises exactly the recorded defect of the tau derivative (and nothing else)"""
    delta = ((1 - c.bsf) * c.I0 * c.omega * c.mu_0 / (c.mu_0 + c.mu_ex) * (c.mu_ex - 1 / c.mu_ex) * c.att * c.p)
    try:
        return (not vn.asrat(got).equals(ref)) and vn.asrat(got).equals(dtransform(c, I, dI + delta, db, sg))
    except alg.Undecided:
        return False


def ddummy(at):
    if at.kind == "sym":
        return rat(0)
    if at.kind == "call" and at.extra == "at":
        F = at.args[0]
        return alg.call("at", [alg.call("D", [F, sym("x$"), rat(1)])] + list(at.args[1:]))
    if at.kind == "call":
        raise alg.Undecided(f"parameter derivative of {at.name[:80]}")
    return None


def effect_independence(P, rep):
    """no scattering function reads tau/omega/NormBRDF/bsf"""
    for base, ent, banned in (("volume.Volume", "p", {"tau", "omega", "bsf", "NormBRDF", "I0"}),
                              ("surface.Surface", "brdf", {"tau", "omega", "NormBRDF", "bsf", "I0"})):
        b = P.cls(base)
        for c in [b] + P.subclasses(b):
            seen, todo, hit = set(), [ent, "_func", "_func_numeric", "_lambda_func"], []
            while todo:
                m = todo.pop()
                if m in seen:
                    continue
                seen.add(m)
                fm = P.find_method(c, m)
                if fm is None:
                    continue
                rep.analysed.add(fm.qual)
                for n in ast.walk(fm.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self":
                        if n.attr in banned and m not in ("_Vcombiner", "_SRFcombiner"):
                            hit.append((fm.qual, n.attr, n.lineno))
                        todo.append(n.attr)
            rep.check(not hit, f"independent:{c.name}@{b.name}",
                      f"{ent}() of {c.name} reads {hit}" if hit else f"{ent}() of {c.name} never reads {sorted(banned)}",
                      c.qual)


# ----------------------------------------------------------- slope/curvature
def p_slopes(P, tier):
    rep = Report("P03", tier, "Value numbering of the six slope/curvature methods specialised to each unit choice; compared with the "
                 "first/second derivative w.r.t. the incidence angle of the extracted monostatic contribution terms, and "
                 "value numbering of the symbolic angular derivative helpers of both scattering base classes.")
    c = Core(P, True)
    t = c.t_0.single_atom()
    if t is None:
        rep.undecided("t_0", "incidence angle is not a plain input", "RT1.t_0")
        return rep

    def rules(at):
        if at.kind != "call":
            return None
        if at.extra in ("brdf", "p"):
            return alg.call(at.extra + "_d", ["1", c.t_0, c.p_0, c.pd])
        if at.extra in ("brdf_d", "p_d"):
            return alg.call(at.extra, [str(int(at.args[0]) + 1), c.t_0, c.p_0, c.pd])
        return None

    S, _ = c.run("rt1.RT1.surface")
    V, _ = c.run("rt1.RT1.volume")
    S, V = vn.asrat(S), vn.asrat(V)
    for nm, I in (("surface", S), ("volume", V), ("tot", S + V)):
        for kind, order in (("slope", 1), ("curv", 2)):
            for db in (False, True):
                for sg in (False, True):
                    ref = None
                    J = 4 * PI * fn("cos", c.t_0) * I if sg else I
                    d1 = alg.diff(J, t, rules)
                    if order == 1:
                        ref = 10 / LN10() * d1 / J if db else d1
                    else:
                        d2 = alg.diff(d1, t, rules)
                        ref = 10 / LN10() * (d2 / J - d1 * d1 / (J * J)) if db else d2
                    v, f = c.run(f"rt1.RT1.{nm}_{kind}", dB=db, sig0=sg)
                    compare(rep, f"{nm}_{kind}:dB={db}:sig0={sg}", v, ref, f,
                            f"{kind} of the {nm} contribution, dB={db}, sig0={sg}")
    rep.analysed |= c.ev.visited
    theta_diff(P, rep)
    rep.assume("brdf_theta_diff/p_theta_diff(n) with monostatic geometry are the n-th total derivatives of brdf/p along "
               "t_ex=t_0, p_ex=p_0+pi -- itself established by the theta_diff obligations")
    rep.minimum = 30
    return rep


def differentiable(P, rep):
    """sympy leaves derivatives of these functions unevaluated (or turns them into DiracDelta), so that no numeric function can be generated from slope or curvature"""
    n = 0
    for base, c in scatterfn.concrete(P):
        f = scatterfn.own(P, c, base, "_func")
        if f is None or c.name.startswith("LinComb"):
            continue
        n += 1
        v, f, ev = scatterfn.func_term(P, c, lambda ev, selfv, bound, extra: sym("x$"))
        rep.analysed |= ev.visited
        found = sorted(set(scatterfn.UNDIFF.findall(vn.key(v))))
        rep.check(not found, f"theta_diff:{c.name}:closed form", f"the angular derivatives of the closed form can be evaluated numerically (functions without numeric derivative: {found})", f"{f.file}:{f.qual}")
    if not n:
        rep.undecided("theta_diff:closed forms", "no scattering functions found", "rt1/surface.py")


def theta_diff(P, rep):
    differentiable(P, rep)
    for base, meth in (("surface.Surface", "brdf_theta_diff"), ("volume.Volume", "p_theta_diff")):
        cls = P.cls(base)
        f = P.func(f"{base}.{meth}")
        for n in (1, 2):
            for symbolic in (False, True):
                ev = vn.Evaluator(P, facts=lambda t: False if "isinstance(" in t else None)
                v, _ = ev.run(f, kw={"geometry": "mono", "return_symbolic": symbolic, "n": n, "t_0": sym("t_0"),
                                      "t_ex": sym("t_ex"), "p_0": sym("p_0"), "p_ex": sym("p_ex"),
                                      "param_dict": vn.DictV({"x1": sym("X1"), "x2": sym("X2")})}, selfv=vn.Obj("self", cls))
                th, F = sym("theta_0"), sym("self._func")
                p0 = alg.call("item", [alg.call("uniq", [sym("p_0")]).key(), "0"])
                inner = alg.call("at", [F, "phi_0:=", p0, "phi_ex:=", p0 + PI, "theta_0:=", th, "theta_ex:=", th])
                D = alg.call("D", [inner, th, rat(n)])
                if symbolic:
                    ref = D
                else:
                    ref = alg.call("at", [D, "phi_0:=", sym("p_0"), "phi_ex:=", sym("p_0") + PI, "theta_0:=", sym("t_0"), "theta_ex:=", sym("t_0"),
                                          "x1=X1", "x2=X2"])
                key = f"theta_diff:{cls.name}:n={n}:symbolic={symbolic}"
                if not isinstance(v, alg.Rat):
                    rep.undecided(key, vn.key(v)[:300], f.qual)
                else:
                    compare(rep, key, v, ref, f, f"{meth}: n-th derivative along the monostatic direction",
                            allowed={"at", "D", "item", "uniq"})
                rep.analysed |= ev.visited


CHECKS = {"P01": p_forward, "P02": p_jacobian, "P03": p_slopes}
