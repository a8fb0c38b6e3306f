"""P19: the fn-coefficients of the interaction term are the azimuthal integral of the product of the two series

The symbolic pipeline of RT1 is evaluated abstractly over a model of sympy/symengine expressions: sums of products of powers of
cos/sin(theta_s), cos/sin(phi_s) and of unexpanded sums, with generic coefficients.  `expand` and `xreplace` have their structural
meaning (xreplace replaces exactly matching sub-expressions only)."""
import ast

from rtsa import alg, vn
from rtsa.alg import PI, exp, fn, rat, sym
from rtsa.report import Report
from .core import ref_interaction  # noqa: F401
from .rtcommon import ANG, Core, compare

KNOWN = ("theta_s", "phi_s")


class E(vn.ModelObj):
    """sum of  coefficient * product of base**exponent;  a base is the text of an atom or another sum"""

    def __init__(self, terms):
        d = {}
        for fac, c in terms:
            k = frozenset(fac.items())
            d[k] = d[k] + c if k in d else c
        self.d = {k: c for k, c in d.items() if not c.is_zero()}
        self._key = None

    def terms(self):
        return [(dict(k), c) for k, c in self.d.items()]

    def key(self):
        if self._key is None:
            one = self.single_power()
            if one:
                self._key = f"sympy[{one[0]}**{one[1]}]"
            else:
                self._key = "sympy[" + "+".join(sorted(
                    f"({c.key()})" + "".join(f"*{b if isinstance(b, str) else b.key()}**{e}" for b, e in sorted(k, key=str))
                    for k, c in self.d.items())) + "]"
        return self._key

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return isinstance(o, E) and o.key() == self.key()

    def single_power(self):
        """(base, exponent) of a plain power"""
        if len(self.d) == 1:
            (k, c), = self.d.items()
            if len(k) == 1 and c.const() == 1:
                return next(iter(k))
        return None

    def number(self):
        """coefficient of an expression without atoms"""
        if not self.d:
            return rat(0)
        if len(self.d) == 1 and frozenset() in self.d:
            return self.d[frozenset()]
        return None

    # ---- construction with sympy's automatic simplifications
    @staticmethod
    def of(v):
        if isinstance(v, E):
            return v
        if vn.isnum(v) and not isinstance(v, bool):
            r = vn.asrat(v)
            a = r.single_atom()
            return E([({}, r)]) if not a or not a.startswith("$trig") else None
        return None

    def neg(self):
        return E([(f, -c) for f, c in self.terms()])

    def add(self, o):
        return E(self.terms() + o.terms())

    def mul(self, o):
        for a, b in ((self, o), (o, self)):
            n = a.number()
            if n is not None:
                return E([(f, c * n) for f, c in b.terms()])
        fac, co = {}, rat(1)
        for x in (self, o):
            if len(x.d) == 1:
                (f, c), = x.terms()
            else:
                f, c = {x: 1}, rat(1)
            co = co * c
            for b, e in f.items():
                fac[b] = fac.get(b, 0) + e
        return E([({b: e for b, e in fac.items() if e}, co)])

    def pow(self, n):
        if n == 0:
            return E([({}, rat(1))])
        if len(self.d) == 1:
            (f, c), = self.terms()
            return E([({b: e * n for b, e in f.items()}, alg.power(c, rat(n)))])
        if not self.d:
            return self
        return E([({self: n}, rat(1))])

    # ---- structural operations
    def expand(self):
        out = E([])
        for f, c in self.terms():
            t = E([({b: e for b, e in f.items() if isinstance(b, str)}, c)])
            for b, e in f.items():
                if isinstance(b, E):
                    if e < 0:
                        raise alg.Undecided("negative power of a sum")
                    x = b.expand()
                    for _ in range(e):
                        t = E([(merge(f1, f2), c1 * c2) for f1, c1 in t.terms() for f2, c2 in x.terms()])
            out = out.add(t)
        return out

    def xreplace(self, rules):
        if self.key() in rules:
            return rules[self.key()]
        out = E([])
        for f, c in self.terms():
            t = E([({}, c)])
            for b, e in f.items():
                p = E([({b: e}, rat(1))])
                if p.key() in rules:
                    r = rules[p.key()]
                elif isinstance(b, str):
                    one = E([({b: 1}, rat(1))])
                    r = rules[one.key()].pow(e) if one.key() in rules else p
                else:
                    r = b.xreplace(rules).pow(e)
                t = t.mul(r)
            out = out.add(t)
        return out

    # ---- protocol
    def binop(self, ev, op, other, swapped):
        if isinstance(op, ast.Pow):
            n = vn.asrat(other).const() if not swapped and vn.isnum(other) else None
            if n is not None and n.denominator == 1:
                return self.pow(int(n))
            return NotImplemented
        o = E.of(other)
        if o is None:
            return NotImplemented
        a, b = (o, self) if swapped else (self, o)
        if isinstance(op, ast.Add):
            return a.add(b)
        if isinstance(op, ast.Sub):
            return a.add(b.neg())
        if isinstance(op, ast.Mult):
            return a.mul(b)
        if isinstance(op, ast.Div):
            n = b.number()
            if n is not None:
                return E([(f, c / n) for f, c in a.terms()])
        return NotImplemented

    def unary(self, ev, op):
        return self.neg() if isinstance(op, ast.USub) else NotImplemented

    def method(self, ev, name, args, kw, env):
        if name in ("doit", "simplify", "copy", "evalf"):
            return self
        if name == "expand" and not args and not kw:
            return self.expand()
        if name == "xreplace" and len(args) == 1:
            r = rules_of(ev, args[0])
            if r is not None:
                return self.xreplace(r)
        if name == "coeff" and args:
            n = int(vn.asrat(args[1]).const()) if len(args) > 1 else 1
            p = args[0].single_power() if isinstance(args[0], E) else None
            if p and all(isinstance(b, str) for k in self.d for b, _ in k):
                b, e = p[0], p[1] * n
                return E([({x: y for x, y in f.items() if x != b}, c) for f, c in self.terms() if f.get(b, 0) == e])
        return NotImplemented

    def attr(self, ev, name, env):
        return NotImplemented


def merge(f1, f2):
    f = dict(f1)
    for b, e in f2.items():
        f[b] = f.get(b, 0) + e
    return {b: e for b, e in f.items() if e}


def rules_of(ev, v):
    if isinstance(v, vn.DictV):
        out = {}
        for k, x in v.d.items():
            x = E.of(x)
            if x is None or not isinstance(k, str):
                return None
            out[k] = x
        return out
    return None


def pairs(ev, v):
    """dict() of a list of pairs with expressions as keys"""
    items = ev.concrete(v)
    if items is None:
        return None
    out = {}
    for p in items:
        kv = ev.concrete(p)
        if kv is None or len(kv) != 2:
            return None
        k = kv[0]
        out[k if isinstance(k, (str, int)) else vn.key(k)] = kv[1]
    return vn.DictV(out)


class Lambda(vn.ModelObj):
    """a compiled function of named variables"""
    name = "lambdified"

    def __init__(self, names, body, listarg):
        self.names, self.body, self.listarg = names, body, listarg

    def key(self):
        return f"lambdify({','.join(self.names)})"

    def setattr(self, ev, name, v, env):
        return None

    def attr(self, ev, name, env):
        return sym("$doc") if name.startswith("__") else NotImplemented

    def call(self, ev, args, kw, env):
        if self.listarg:
            if len(args) != 1 or not isinstance(args[0], vn.Seq) or kw:
                raise vn.PyRaise("TypeError")
            args = args[0].items
        if len(args) + len(kw) != len(self.names) or any(k not in self.names for k in kw):
            raise vn.PyRaise("TypeError")
        b = dict(zip(self.names, args))
        b.update(kw)
        vals = {n: vn.asrat(v) for n, v in b.items()}
        return vn.Arr(self.body.var, self.body.count, alg.subst(self.body.body, {n: vals[n] for n in vals}))


class Pipeline(vn.Evaluator):
    def __init__(self, P, nv, ns, **kw):
        super().__init__(P, **kw)
        self.exact_try, self.instantiate, self.maxdepth = True, True, 60
        self.missing = {}
        e = self.ext
        for m in ("sympy", "symengine"):
            e[f"{m}.expand"] = lambda ev, a, k: E.of(a[0]).expand() if not k and E.of(a[0]) is not None else ev.unknown("expand")
            for t in ("sin", "cos"):
                e[f"{m}.{t}"] = lambda ev, a, k, m=m, t=t: E([({f"{t}({a[0].key()})": 1}, rat(1))]) if isinstance(a[0], alg.Rat) and a[0].key() in KNOWN \
                    else ev.ext_plain(f"{m}.{t}", a, k)
            e[f"{m}.sympify"] = e[f"{m}.S"] = lambda ev, a, k: a[0]
            e[f"{m}.simplify"] = lambda ev, a, k: a[0]
            for t in ("symbols", "var"):
                e[f"{m}.{t}"] = self.symbols
            e[f"{m}.Add"] = lambda ev, a, k: ev.fold(ast.Add(), a)
            e[f"{m}.Mul"] = lambda ev, a, k: ev.fold(ast.Mult(), a)
            e[f"{m}.lambdify"] = e[f"{m}.Lambdify"] = e[f"{m}.LambdifyCSE"] = None
            e[f"{m}.collect"] = self.collect
        e["sympy.lambdify"] = lambda ev, a, k: ev.compiled(a, k, False)
        e["symengine.Lambdify"] = e["symengine.LambdifyCSE"] = lambda ev, a, k: ev.compiled(a, k, True)
        for k in [x for x, h in e.items() if h is None]:
            del e[k]
        e["sympy.binomial"] = e["scipy.special.binom"] = e["scipy.special.comb"] = e["math.comb"] = binom
        for n in ("sympy.factorial", "math.factorial", "scipy.special.factorial"):
            e[n] = lambda ev, a, k: factorial(ev, a[0])
        e["builtins.dict"] = self.mkdict
        e["numpy.arange"] = lambda ev, a, k: ev.ints(a)
        e["builtins.map"] = self.mapped
        e["timeit.default_timer"] = lambda ev, a, k: sym("$time")

    def mkdict(self, ev, a, k):
        if len(a) == 1 and not k and not isinstance(a[0], vn.DictV):
            r = pairs(ev, a[0])
            if r is not None:
                return r
        return ev.ext_plain("builtins.dict", a, k)

    def ints(self, a):
        c = [vn.asrat(x).const() if vn.isnum(x) else None for x in a]
        if any(x is None or x.denominator != 1 for x in c):
            return self.unknown("arange")
        return vn.Seq([rat(i) for i in range(*[int(x) for x in c])], "ndarray")

    def mapped(self, ev, a, k):
        if len(a) == 2 and isinstance(a[1], vn.Arr):
            v = a[1]
            return vn.Arr(v.var, v.count, self.apply(a[0], [v.body], {}, self.node_, self.env_))
        items = ev.concrete(a[1]) if len(a) == 2 else None
        if items is None:
            return ev.unknown("map")
        return vn.IterV([self.apply(a[0], [x], {}, self.node_, self.env_) for x in items])

    def fold(self, op, a):
        r = a[0]
        for x in a[1:]:
            r = self.binop(op, r, x, None)
        return r

    @staticmethod
    def symbols(ev, a, k):
        if isinstance(a[0], str):
            n = a[0].replace(",", " ").split()
            return sym(n[0]) if len(n) == 1 else vn.Seq([sym(x) for x in n], "tuple")
        items = ev.concrete(a[0])
        if items is not None and all(isinstance(x, str) for x in items):
            return vn.Seq([sym(x) for x in items], "tuple")
        return ev.unknown("symbols")

    @staticmethod
    def collect(ev, a, k):
        x, p = a[0], a[1].single_power() if isinstance(a[1], E) else None
        if isinstance(x, E) and p and k.get("evaluate", True) is False:
            out = {}
            for f, c in x.terms():
                n = f.get(p[0], 0)
                out.setdefault(n, []).append(({b: e for b, e in f.items() if b != p[0]}, c))
            d = {}
            for n, t in out.items():
                kk = E([({p[0]: n} if n else {}, rat(1))])
                d[kk.key() if n else 1] = E(t)
            return vn.DictV(d)
        return ev.unknown("collect")

    def compiled(self, a, k, listarg):
        names = self.concrete(a[0]) if not vn.isnum(a[0]) else [a[0]]
        if names is None or len(a) < 2 and not k:
            return self.unknown("lambdify")
        names = [n if isinstance(n, str) else vn.key(n) for n in names]
        body = a[1]
        return Lambda(names, body, listarg) if isinstance(body, vn.Arr) and isinstance(body.body, alg.Rat) else self.unknown("lambdify of something else")

    # dictionaries with expressions as keys
    def e_DictComp(self, e, env):
        r = self.comp(e, env, lambda e2: vn.Seq([self.ev(e.key, e2), self.ev(e.value, e2)], "tuple"))
        if isinstance(r, vn.Seq):
            d = pairs(self, r)
            if d is not None:
                return d
        return r

    def assign(self, t, v, env):
        if isinstance(t, ast.Subscript):
            o, i = self.ev(t.value, env), self.ev(t.slice, env)
            if isinstance(o, vn.DictV) and isinstance(i, E):
                o.d[i.key()] = v
                return
        super().assign(t, v, env)

    @staticmethod
    def asindex(i):
        n = i.number() if isinstance(i, E) else None
        if n is not None and n.const() is not None and n.const().denominator == 1:
            return int(n.const())
        return i.key() if isinstance(i, E) else i

    def method(self, f, args, kw, node, env):
        if args and isinstance(args[0], E) and isinstance(f.val, vn.DictV):
            args = [self.asindex(args[0])] + list(args[1:])
        return super().method(f, args, kw, node, env)

    def e_Subscript(self, e, env):
        o = self.ev(e.value, env)
        if isinstance(o, vn.DictV) and not isinstance(e.slice, ast.Slice):
            i = self.asindex(self.ev(e.slice, env))
            if isinstance(i, (str, int)) and i in o.d:
                return o.d[i]
        return super().e_Subscript(e, env)

    def getattr(self, o, name, env, node=None):
        if isinstance(o, vn.Obj) and name in self.missing and (o.path, name) not in env["$heap"]:
            raise vn.PyRaise("AttributeError")
        return super().getattr(o, name, env, node)

    def apply(self, f, args, kw, node, env):
        self.node_, self.env_ = node, env
        return super().apply(f, args, kw, node, env)


def factorial(ev, v):
    from math import factorial as fac
    n = vn.asrat(v).const() if vn.isnum(v) else None
    return rat(fac(int(n))) if n is not None and n.denominator == 1 and n >= 0 else ev.unknown("factorial")


def binom(ev, args, kw):
    from math import comb
    a, b = (vn.asrat(x).const() for x in args[:2])
    if a is not None and b is not None and a.denominator == 1 and b.denominator == 1 and b >= 0:
        return rat(comb(int(a), int(b)))
    return ev.unknown("binomial")


def generic(name, n):
    """polynomial of degree n-1 in x = A cos(theta_s) + B sin(theta_s) cos(phi_s) + C sin(theta_s) sin(phi_s), monomials with generic coefficients"""
    t = []
    for a in range(n):
        for e in range(n - a):
            for f in range(n - a - e):
                fac = {"cos(theta_s)": a, "sin(theta_s)": e + f, "cos(phi_s)": e, "sin(phi_s)": f}
                t.append(({b: x for b, x in fac.items() if x}, sym(f"{name}{a}{e}{f}")))
    return E(t)


def mean(e, f):
    """mean of cos^e sin^f over a full turn"""
    if e % 2 or f % 2:
        return alg.F(0)
    r = alg.F(1)
    for k in range(1, e, 2):
        r *= k
    for k in range(1, f, 2):
        r *= k
    for k in range(2, e + f + 1, 2):
        r /= k
    return r


def reference(nv, ns):
    """coefficients of cos^n(theta_s) of the integral over phi_s"""
    from math import comb
    out = [rat(0)] * (nv + ns - 1)
    for f1, c1 in generic("v", nv).terms():
        for f2, c2 in generic("s", ns).terms():
            f = merge(f1, f2)
            m = mean(f.get("cos(phi_s)", 0), f.get("sin(phi_s)", 0))
            if m == 0:
                continue
            h = f.get("sin(theta_s)", 0) // 2
            for k in range(h + 1):
                n = f.get("cos(theta_s)", 0) + 2 * k
                out[n] = out[n] + 2 * PI * rat(m * comb(h, k) * (-1) ** k) * c1 * c2
    return out


def expansion(P, rep, tier):
    cls = P.cls("rt1.RT1")
    f = P.find_setter(cls, "fn") if hasattr(P, "find_setter") else None
    where = "rt1/rt1.py:rt1.rt1.RT1._set_fn"
    sizes = [(1, 1), (2, 1), (1, 2), (2, 2), (1, 6), (6, 1), (3, 3), (2, 4)]
    if tier == "thorough":
        sizes += [(4, 2), (3, 4), (4, 4), (5, 3), (2, 6)]
    for nv, ns in sizes:
        seen = []

        def series(which, n):
            def h(ev, selfv, bound, extra):
                seen.append((which, [vn.key(bound.get(a)) for a in ANG + ("geometry",)]))
                return generic(which, n)
            return h
        for given in (False, True):
            V, S = P.cls("volume.Volume"), P.cls("surface.Surface")
            pre = vn.Seq([sym(f"given{i}") for i in range(nv + ns - 1)])
            ev = Pipeline(P, nv, ns, opaque={"Volume.legexpansion": series("v", nv), "Surface.legexpansion": series("s", ns), "RT1.prv": lambda *a: None},
                          types={"self.V": V, "self.SRF": S},
                          attrs={"self.V.ncoefs": nv, "self.SRF.ncoefs": ns, "self.int_Q": True, "self.fn_input": pre if given else None,
                                 **{f"self.{a}": sym(a) for a in ANG}, "self.geometry": sym("GEO")})
            ev.missing = {"_RT1__fn", "_RT1__fnevals"}
            self_ = vn.Obj("self", cls)
            key = f"coefficients:{nv}x{ns}" if not given else f"provided:{nv}x{ns}"
            env = {"$heap": {}, "$func": P.func("rt1.RT1.calc")}
            try:
                r = ev.getattr(self_, "fn", env)
            except vn.PyRaise as ex:
                rep.bad(key, f"evaluating the coefficients raises {ex.kind}", where)
                continue
            except alg.Undecided as ex:
                rep.undecided(key, str(ex), where)
                continue
            rep.analysed |= ev.visited
            if given:
                rep.check(vn.key(r) == vn.key(pre), key, "coefficients that are provided as fn_input are used as they are", where)
                break
            items = ev.concrete(r)
            if items is None:
                rep.undecided(key, f"the list of coefficients is {vn.key(r)[:200]}", where)
                continue
            want = reference(nv, ns)
            bad = [(w, a) for w, a in seen if a != list(ANG) + ["GEO"]]
            rep.check(not bad and {w for w, _ in seen} == {"v", "s"}, key + ":series",
                      f"both series are evaluated for the angles and the geometry of the model {bad[:1]}", where)
            n = max(len(items), len(want))
            for i in range(n):
                got = E.of(items[i]) if i < len(items) else E([])
                if got is None:
                    rep.undecided(f"{key}:f{i}", vn.key(items[i])[:200], where)
                    continue
                w = want[i] if i < len(want) else rat(0)
                x = got.expand()
                v = x.number()
                good = v is not None and v.equals(w)
                unknown = not good and any(vn.undecidable_atoms(c) for c in x.d.values())
                rep.check(None if unknown else good, f"{key}:f{i}",
                          f"coefficient of cos(theta_s)^{i} of the azimuthal integral ({nv} volume and {ns} surface coefficients)"
                          + ("" if v is not None and v.equals(w) else f": computed {(v.key() if v is not None else x.key())[:300]}; expected {w.key()[:300]}"), where)


def binding(P, rep):
    """RT1._fnevals: every angle and parameter is bound to its own symbol"""
    for mono in (True, False):
        for backend in ("symengine", "sympy"):
            for names in (("b", "a"), ()):
                for given in (False, True):
                    bind(P, rep, mono, backend, names, given)


def bind(P, rep, mono, backend, names, given):
    key = f"binding:{'mono' if mono else 'bistatic'}:{backend}:{','.join(names) or 'none'}" + (":provided" if given else "")
    c = Core(P, mono, facts={"'symengine'==self.lambda_backend": backend == "symengine", "'sympy'==self.lambda_backend": backend == "sympy"})
    N = sym("self.V.ncoefs") + sym("self.SRF.ncoefs") - 1
    ev = Pipeline(P, 0, 0)
    ev.user_facts = c.user_facts
    ev.facts = c.ev.facts
    ev.types = c.ev.types
    order = ("theta_0", "phi_0", "theta_ex", "phi_ex") + tuple(names)
    v = vn.fresh("n")
    fnarr = vn.Arr(v, N, alg.call("fn", [sym(v)] + [sym(x) for x in order]))
    ev.opaque = dict(c.ev.opaque)
    ev.opaque.update({"RT1.fn": lambda *a: fnarr, "RT1._get_fn": lambda *a: fnarr, "RT1.prv": lambda *a: None})
    ev.attrs.update(c.ev.attrs)
    ev.attrs.update({"self.param_dict": vn.DictV({n: sym("P" + n) for n in names}), "self.lambda_backend": backend, "self.int_Q": True,
                     "self._fnevals_input": Lambda(list(order), fnarr, backend == "symengine") if given else None})
    ev.missing = {"_RT1__fn", "_RT1__fnevals"}
    f = P.func("rt1.RT1.interaction")
    where = f"{f.file}:{f.qual}"
    c.ev = ev
    c.N = N
    env = {"$heap": {}, "$func": f}
    try:
        got = ev.call_func(vn.FuncV(f, vn.Obj("self", c.cls)), [], {}, None, env["$heap"])
    except vn.PyRaise as ex:
        rep.bad(key, f"evaluating the interaction contribution raises {ex.kind} ({backend} backend)", where)
        return
    except alg.Undecided as ex:
        rep.undecided(key, str(ex), where)
        return
    rep.analysed |= ev.visited
    t = {"t_0": c.t_0, "t_ex": c.t_ex, "p_0": c.p_0, "p_ex": c.p_ex}
    want = c.R * (1 - c.bsf) * c.I0 * c.mu_0 * c.omega * (
        exp(-c.tau / c.mu_ex) * fint(c, N, t["t_0"], t["p_0"], t["t_ex"], t["p_ex"], names)
        + exp(-c.tau / c.mu_0) * fint(c, N, t["t_ex"], t["p_ex"], t["t_0"], t["p_0"], names))
    compare(rep, key, got, want, f, "the coefficient function gets every angle and parameter under its own name "
            f"({'monostatic' if mono else 'bistatic'}, {backend} backend)", allowed={"fn", "expn", "expi"})


def fint(c, N, th1, ph1, th2, ph2, names):
    mu, tau = fn("cos", th1), c.tau
    n, k = vn.fresh("n"), vn.fresh("k")
    K, Nn = sym(k), sym(n)
    e = exp(-tau / mu)
    hlp = e * fn("log", mu / (1 - mu)) - fn("expi", -tau) + e * fn("expi", tau / mu - tau)
    s2 = alg.mksum(rat(1), Nn + 1, alg.power(mu, -K) * (alg.call("expn", [K + 1, tau]) - e / K), k)
    f = alg.call("fn", [Nn, th1, ph1, th2, ph2] + [sym("P" + x) for x in names])
    return alg.mksum(rat(0), N - 1, f * alg.power(mu, Nn + 1) * (s2 + hlp), n)


def p_expansion(P, tier):
    rep = Report("P19", tier, "Abstract evaluation of the symbolic coefficient pipeline (product of the series, azimuthal integration, extraction of the "
                 "powers of cos(theta_s), compilation) over generic series of concrete length; every coefficient is compared with the closed integral.")
    expansion(P, rep, tier)
    binding(P, rep)
    rep.assume("sympy/symengine: expand distributes completely, xreplace replaces exactly matching sub-expressions, lambdified functions bind arguments by position")
    rep.minimum = 40
    return rep


CHECKS = {"P19": p_expansion}
