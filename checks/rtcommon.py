"""shared set-up for the checks of the RT1 core (value numbering of rt1.py)"""
from rtsa import alg, vn
from rtsa.alg import PI, fn, exp, rat, sym, power
from rtsa.model import AnalysisBroken

ANG = ("t_0", "t_ex", "p_0", "p_ex")


class Core:
    """evaluator specialised to one geometry"""

    def __init__(self, P, mono, opaque=(), facts=None):
        self.P, self.mono = P, mono
        V, S = P.cls("volume.Volume"), P.cls("surface.Surface")
        self.cls = P.cls("rt1.RT1")
        f = {"'mono'==self.geometry": mono}
        f.update(facts or {})
        op = {
            "Surface.brdf": "brdf",
            "Volume.p": "p",
            "Surface.brdf_theta_diff": self._d("brdf_d"),
            "Volume.p_theta_diff": self._d("p_d"),
        }
        op.update(opaque or {})
        self.user_facts = f
        self.ev = vn.Evaluator(
            P, opaque=op, types={"self.V": V, "self.SRF": S}, facts=self._fact, attrs={"self.geometry": "mono" if mono else "vvvv"}
        )
        self.selfv = vn.Obj("self", self.cls)
        self.env = {"$heap": {}, "$func": P.func("rt1.RT1.calc"), "self": self.selfv}
        self.t_0, self.t_ex, self.p_0, self.p_ex = [self.attr(a) for a in ANG]
        self.tau, self.omega = sym("self.V.tau"), sym("self.V.omega")
        self.R, self.bsf, self.I0 = sym("self.SRF.NormBRDF"), sym("self.bsf"), sym("self.I0")
        self.mu_0, self.mu_ex = fn("cos", self.t_0), fn("cos", self.t_ex)
        self.att = exp(-self.tau / self.mu_0 - self.tau / self.mu_ex)
        self.pd = sym("self.param_dict")
        g = [self.t_0, self.t_ex, self.p_0, self.p_ex]
        self.brdf = alg.call("brdf", g + [self.pd])
        self.p = alg.call("p", g + [self.pd])

    def _fact(self, text):
        if text in self.user_facts:
            return self.user_facts[text]
        for k, v in self.user_facts.items():
            if k.startswith("~") and k[1:] in text:
                return v
        return None

    def _d(self, name):
        """opaque angular derivative: in monostatic geometry the exit angles are
        ignored by the callee (checked separately), so only t_0/p_0 identify it"""

        def h(ev, selfv, bound, extra):
            g = bound.get("geometry")
            mono = g == "mono" or (
                isinstance(g, alg.Rat) and g.key() == "self.geometry" and self.mono
            )
            if bound.get("return_symbolic", False) is not False:
                return vn.Unknown("symbolic derivative requested")
            n = bound.get("n", 1)
            n = int(vn.asrat(n).const()) if vn.isnum(n) and vn.asrat(n).const() is not None else vn.key(n)
            if not mono:
                return alg.call(name + "_bistatic", [str(n), vn.key(g)] + [vn.asrat(bound[a]) for a in ANG if a in bound])
            return alg.call(name, [str(n), vn.asrat(bound["t_0"]), vn.asrat(bound["p_0"]), vn.asrat(bound["param_dict"])])

        return h

    def attr(self, name):
        v = self.ev.getattr(self.selfv, name, self.env)
        if not isinstance(v, alg.Rat):
            raise AnalysisBroken(f"RT1.{name} is not a plain value: {vn.key(v)}")
        return v

    def run(self, qual, **kw):
        f = self.P.func(qual)
        v, _ = self.ev.run(f, kw=kw, selfv=self.selfv)
        return v, f

    # ----------------------------------------------- documented forward model
    def ref_surface(self):
        return self.R * self.I0 * self.mu_0 * self.brdf * ((1 - self.bsf) * self.att + self.bsf)

    def ref_volume(self):
        return (
            (1 - self.bsf) * self.I0 * self.omega * self.mu_0 / (self.mu_0 + self.mu_ex)
            * (1 - self.att) * self.p
        )


OPAQUE_OK = {"brdf", "p", "brdf_d", "p_d", "at", "D", "fn", "expn", "uniq", "m:values", "val", "map"}


def compare(rep, key, got, ref, func, what, allowed=OPAQUE_OK):
    """discharge  got == ref  in the algebra"""
    where = f"{func.file}:{func.qual}"
    if isinstance(got, bool) or got is None or isinstance(got, (vn.Seq, str)):
        rep.bad(key, f"{what}: value is {vn.key(got)}, expected {vn.key(ref)[:300]}", where)
        return
    if isinstance(got, vn.Unknown):
        rep.undecided(key, f"{what}: outside the decidable fragment ({got.why})", where)
        return
    try:
        g = vn.asrat(got)
        r = vn.asrat(ref)
        if g.equals(r):
            rep.ok(key, what, where)
            return
        bad = vn.undecidable_atoms(g, allowed)
        if bad or "?<" in g.key():
            rep.undecided(key, f"{what}: uninterpreted term {bad[:2]} in {g.key()[:300]}", where)
        else:
            rep.bad(key, f"{what}: computed term is\n    {g.key()[:900]}\n  expected\n    {r.key()[:900]}", where)
    except alg.Undecided as e:
        rep.undecided(key, f"{what}: {e}", where)
