"""Algebraic normal forms used as the value domain of the value-numbering pass.

A ``Rat`` is  num/den  where both are (Laurent) polynomials with rational
coefficients over *atoms*; an atom is an interned canonical string
(``cos(t_0)``, ``E(tau*cos(t_0)^-1)``, ...) whose structure is kept in a
registry so that terms can be differentiated and substituted.

Equality is decided by cross-multiplication in the polynomial ring modulo
sin^2 = 1-cos^2,  root(b,q)^q = b -- i.e. by a normal form, not by sampling and
not by a solver.
"""
from fractions import Fraction as F


class Undecided(Exception):
    """term leaves the decidable fragment"""


class Atom:
    __slots__ = ("name", "kind", "args", "extra")

    def __init__(self, name, kind, args=(), extra=None):
        self.name, self.kind, self.args, self.extra = name, kind, tuple(args), extra


ATOMS = {}


def _intern(name, kind, args=(), extra=None):
    if name not in ATOMS:
        ATOMS[name] = Atom(name, kind, args, extra)
    return name


# ----------------------------------------------------------------- polynomials
# poly : dict  monomial -> Fraction ; monomial: tuple(sorted((atom, exp)))

def padd(a, b, sb=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + sb * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mmul(m, n):
    d = dict(m)
    for a, e in n:
        v = d.get(a, 0) + e
        if v:
            d[a] = v
        else:
            d.pop(a, None)
    return tuple(sorted(d.items()))


def _needs_reduce(m):
    for a, e in m:
        k = ATOMS[a].kind
        if k == "root" and (e >= ATOMS[a].extra or e < 0):
            return True
        if k == "sin" and e >= 2:
            return True
        if k == "sign" and e >= 2 and e % 1 == 0:
            return True
    return False


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    if len(r) > 60000:
        raise Undecided("term explosion")
    return preduce(r)


def preduce(p):
    """apply sin^2 -> 1-cos^2 and root(b,q)^q -> b until no monomial needs it"""
    while True:
        todo = [m for m in p if _needs_reduce(m)]
        if not todo:
            return p
        for m in todo:
            c = p.pop(m)
            repl = {(): F(1)}
            rest = []
            for a, e in m:
                at = ATOMS[a]
                if at.kind == "sin" and e >= 2:
                    cosn = fn("cos", at.args[0]).single_atom()
                    base = {(): F(1), ((cosn, 2),): F(-1)}
                    h, odd = divmod(int(e), 2)
                    for _ in range(h):
                        repl = _rawmul(repl, base)
                    if odd:
                        rest.append((a, 1))
                elif at.kind == "root" and e >= at.extra:
                    b = at.args[0]
                    if b.den != ONE_P:
                        raise Undecided("root of fraction")
                    h, odd = divmod(int(e), at.extra)
                    for _ in range(h):
                        repl = _rawmul(repl, b.num)
                    if odd:
                        rest.append((a, odd))
                elif at.kind == "root" and e < 0:
                    raise Undecided("negative root power")
                elif at.kind == "sign" and e >= 2:
                    if int(e) % 2:
                        rest.append((a, 1))
                else:
                    rest.append((a, e))
            rest = {tuple(sorted(rest)): c}
            p = padd(p, _rawmul(rest, repl))


def _rawmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


ONE_P = {(): F(1)}


def pkey(p):
    def mk(m):
        return "*".join(a if e == 1 else f"{a}^{e}" for a, e in m) or "1"

    out = []
    for m, c in sorted(p.items(), key=lambda t: mk(t[0])):
        s = mk(m)
        if s == "1":
            out.append(str(c))
        elif c == 1:
            out.append(s)
        else:
            out.append(f"{c}*{s}")
    return "+".join(out) or "0"


def pdiv_exact(a, b):
    """exact division of Laurent polys a/b or None (multivariate long division)"""
    if len(b) == 1:
        return None
    order = lambda m: tuple(sorted(m))
    a = dict(a)
    lead_b = max(b, key=lambda m: (sum(e for _, e in m), m))
    q = {}
    for _ in range(400):
        if not a:
            return q
        lead_a = max(a, key=lambda m: (sum(e for _, e in m), m))
        t = mmul(lead_a, tuple((x, -e) for x, e in lead_b))
        c = a[lead_a] / b[lead_b]
        if any(e < -8 for _, e in t):
            return None
        q = padd(q, {t: c})
        a = padd(a, _rawmul({t: c}, b), -1)
        if len(a) > 300:
            return None
    return None


class Rat:
    __slots__ = ("num", "den", "_k")

    def __init__(self, num, den=None):
        self.num = num
        self.den = den or ONE_P
        self._k = None
        self._norm()

    def _norm(self):
        n, d = self.num, self.den
        if not d:
            raise Undecided("division by zero")
        if not n:
            self.num, self.den = {}, ONE_P
            return
        # move monomial content of den into num (Laurent), make den monic
        if len(d) == 1:
            (m, c), = d.items()
            if any(ATOMS[a].kind == "root" for a, _ in m):
                # 1/root(b,q)^k = root^(q-k)/b
                r = Rat({(): 1 / c})
                for a, e in m:
                    at = ATOMS[a]
                    if at.kind == "root":
                        r = r * Rat({((a, at.extra - e),): F(1)}) * at.args[0].inv()
                    else:
                        r = r * Rat({((a, -e),): F(1)})
                x = Rat(dict(n)) * r
                self.num, self.den = x.num, x.den
                return
            inv = tuple(sorted((a, -e) for a, e in m))
            self.num = preduce({mmul(k, inv): v / c for k, v in n.items()})
            self.den = ONE_P
            return
        atoms = {}
        for m in d:
            for a, _ in m:
                atoms.setdefault(a, None)
        cont = []
        for a in atoms:
            if ATOMS[a].kind in ("root",):
                continue
            e = min(dict(m).get(a, 0) for m in d)
            if e:
                cont.append((a, -e))
        if cont:
            cont = tuple(sorted(cont))
            n = {mmul(k, cont): v for k, v in n.items()}
            d = {mmul(k, cont): v for k, v in d.items()}
        lead = min(d, key=lambda m: pkey({m: F(1)}))
        c = d[lead]
        if c != 1:
            n = {k: v / c for k, v in n.items()}
            d = {k: v / c for k, v in d.items()}
        n = preduce(dict(n))
        q = None
        if len(n) >= len(d) and len(n) < 80:
            try:
                q = pdiv_exact(n, d)
            except Exception:
                q = None
        if q is not None and any(e < 0 and ATOMS[a].kind == "root" for m in q for a, e in m):
            q = None
        if q is not None:
            self.num, self.den = preduce(q), ONE_P
        else:
            self.num, self.den = n, d

    # -------------------------------------------------------------- arithmetic
    def __add__(self, o):
        o = rat(o)
        if self.den == o.den:
            return Rat(padd(self.num, o.num), self.den)
        return Rat(
            padd(pmul(self.num, o.den), pmul(o.num, self.den)),
            pmul(self.den, o.den),
        )

    __radd__ = __add__

    def __neg__(self):
        return Rat({m: -c for m, c in self.num.items()}, self.den)

    def __sub__(self, o):
        return self + (-rat(o))

    def __rsub__(self, o):
        return rat(o) - self

    def __mul__(self, o):
        o = rat(o)
        return Rat(pmul(self.num, o.num), pmul(self.den, o.den))

    __rmul__ = __mul__

    def inv(self):
        if not self.num:
            raise Undecided("division by zero")
        return Rat(self.den, self.num)

    def __truediv__(self, o):
        return self * rat(o).inv()

    def __rtruediv__(self, o):
        return rat(o) / self

    def ipow(self, k):
        r = rat(1)
        b = self if k >= 0 else self.inv()
        for _ in range(abs(k)):
            r = r * b
        return r

    # ---------------------------------------------------------------- queries
    def key(self):
        if self._k is None:
            n = pkey(self.num)
            if self.den == ONE_P:
                self._k = n
            else:
                self._k = f"({n})/({pkey(self.den)})"
        return self._k

    __str__ = __repr__ = key

    def const(self):
        """Fraction if constant else None"""
        if self.den != ONE_P:
            return None
        if not self.num:
            return F(0)
        if len(self.num) == 1 and () in self.num:
            return self.num[()]
        return None

    def single_atom(self):
        if self.den == ONE_P and len(self.num) == 1:
            (m, c), = self.num.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        return None

    def is_zero(self):
        return not self._cleared()

    def _cleared(self):
        """numerator with negative exponents cleared and reduced"""
        p = dict(self.num)
        for a in {a for m in p for a, _ in m}:
            if ATOMS[a].kind in ("sin", "root", "sign"):
                lo = min(dict(m).get(a, 0) for m in p)
                if lo < 0:
                    p = {mmul(m, ((a, -lo),)): c for m, c in p.items()}
        return preduce(p)

    def equals(self, o):
        o = rat(o)
        d = padd(pmul(self.num, o.den), pmul(o.num, self.den), -1)
        return Rat(d).is_zero() if d else True

    def atoms(self, deep=True):
        seen = set()

        def walk(r):
            for p in (r.num, r.den):
                for m in p:
                    for a, _ in m:
                        if a not in seen:
                            seen.add(a)
                            if deep:
                                for x in ATOMS[a].args:
                                    if isinstance(x, Rat):
                                        walk(x)

        walk(self)
        return seen


def rat(x):
    if isinstance(x, Rat):
        return x
    if isinstance(x, bool):
        raise Undecided("bool in arithmetic")
    if isinstance(x, int):
        return Rat({(): F(x)}) if x else Rat({})
    if isinstance(x, float):
        f = F(repr(x)) if x == x and abs(x) != float("inf") else None
        if f is None:
            raise Undecided("nan/inf literal")
        return Rat({(): f}) if f else Rat({})
    if isinstance(x, F):
        return Rat({(): x}) if x else Rat({})
    raise Undecided(f"not a number: {x!r}")


def sym(name):
    return Rat({((_intern(name, "sym"), 1),): F(1)})


PI = sym("pi")


def call(name, args):
    """opaque function application; args are Rats or strings"""
    k = f"{name}(" + ",".join(a.key() if isinstance(a, Rat) else str(a) for a in args) + ")"
    return Rat({((_intern(k, "call", args, name), 1),): F(1)})


def fn(name, x):
    """known elementary function of one argument"""
    if name == "exp":
        return exp(x)
    if name == "sqrt":
        return power(x, rat(F(1, 2)))
    if name == "tan":
        return fn("sin", x) / fn("cos", x)
    c = x.const()
    if name in ("cos", "sin"):
        # pi shifts :  f(x + k*pi), k integer ; parity
        p = x.num.get((("pi", 1),), 0) if x.den == ONE_P else 0
        if p and p.denominator == 1:
            rest = x - PI * rat(p)
            v = fn(name, rest)
            return v if p % 2 == 0 else -v
        if c == 0:
            return rat(1 if name == "cos" else 0)
        # parity normalisation : sign of first monomial
        if x.num:
            first = min(x.num, key=lambda m: pkey({m: F(1)}))
            if x.num[first] < 0:
                return fn(name, -x) if name == "cos" else -fn(name, -x)
        # angle difference expansion  cos(a+b)
        if x.den == ONE_P and len(x.num) > 1:
            m = min(x.num, key=lambda m: pkey({m: F(1)}))
            a = Rat({m: x.num[m]})
            b = x - a
            if name == "cos":
                return fn("cos", a) * fn("cos", b) - fn("sin", a) * fn("sin", b)
            return fn("sin", a) * fn("cos", b) + fn("cos", a) * fn("sin", b)
    if name == "arccos":
        a = x.single_atom()
        if a and ATOMS[a].kind == "cos":
            return ATOMS[a].args[0]
    if name == "log":
        if c == 1:
            return rat(0)
        a = x.single_atom()
        if a and ATOMS[a].kind == "exp":
            return ATOMS[a].args[0]
        if c is None and x.den == ONE_P and len(x.num) == 1:
            (m, cc), = x.num.items()
            r = rat(0)
            if cc != 1:
                if cc <= 0:
                    return _fnatom(name, x)
                r = r + _fnatom("log", rat(cc))
            for at, e in m:
                y = Rat({((at, 1),): F(1)})
                if ATOMS[at].kind == "exp":
                    r = r + rat(e) * ATOMS[at].args[0]
                elif ATOMS[at].kind == "pow":
                    r = r + rat(e) * ATOMS[at].args[1] * fn("log", ATOMS[at].args[0])
                else:
                    r = r + rat(e) * _fnatom("log", y)
            return r
        if c is None and x.den != ONE_P and len(x.num) == 1:
            # log(a / b) with a product a : log(a) - log(b)
            s = -1 if next(iter(x.num.values())) < 0 else 1
            return fn("log", Rat({m: s * k for m, k in x.num.items()})) - fn("log", Rat({m: s * k for m, k in x.den.items()}))
    if name == "log10":
        return fn("log", x) / fn("log", rat(10))
    if name == "expi" or name == "abs" or name == "sign" or True:
        return _fnatom(name, x)


def _fnatom(name, x):
    return Rat({((_intern(f"{name}({x.key()})", name, (x,)), 1),): F(1)})


def exp(x):
    if x.den != ONE_P:
        return Rat({((_intern(f"exp({x.key()})", "exp", (x,)), 1),): F(1)})
    r = rat(1)
    for m, c in x.num.items():
        b = Rat({m: F(1)})
        e = c if c.denominator != 1 else F(int(c))
        # exp(k*log(10)) -> 10^k normal form:  exp(log(x)*...) kept as pow
        logs = [(a, k) for a, k in m if ATOMS[a].kind == "log" and k == 1]
        if len(logs) == 1:
            base = ATOMS[logs[0][0]].args[0]
            rest = Rat({tuple(t for t in m if t != logs[0]): c})
            r = r * power(base, rest)
            continue
        r = r * Rat({((_intern(f"exp({b.key()})", "exp", (b,)), e),): F(1)})
    return r


def power(b, e):
    k = e.const()
    if k is not None:
        if k.denominator == 1:
            if abs(k) > 40:
                raise Undecided("large power")
            return b.ipow(int(k))
        # fractional power
        bc = b.const()
        if bc is not None and bc == 1:
            return rat(1)
        fl = k.numerator // k.denominator
        fr = k - fl
        if b.den != ONE_P:
            return power(Rat(b.num), e) / power(Rat(b.den), e)
        # split positive monomial content out
        r = rat(1)
        if len(b.num) == 1:
            (m, c), = b.num.items()
            for a, ee in m:
                kind = ATOMS[a].kind
                if kind == "exp" or kind == "pow":
                    r = r * Rat({((a, ee * k),): F(1)})
                else:
                    v = ee * k
                    fl2 = v.numerator // v.denominator
                    fr2 = v - fl2
                    r = r * Rat({((a, 1),): F(1)}).ipow(fl2)
                    if fr2:
                        r = r * _root(Rat({((a, 1),): F(1)}), fr2)
            if c != 1:
                r = r * rat(c).ipow(fl) * _root(rat(c), fr)
            return r
        return b.ipow(fl) * _root(b, fr)
    # symbolic exponent
    if b.const() == 1:
        return rat(1)
    a = b.single_atom()
    if a and ATOMS[a].kind == "exp":
        return exp(ATOMS[a].args[0] * e)
    if e.den != ONE_P:
        return Rat({((_intern(f"pow({b.key()};{e.key()})", "pow", (b, e)), 1),): F(1)})
    r = rat(1)
    for m, c in e.num.items():
        if m == ():
            r = r * power(b, rat(c))
        else:
            x = Rat({m: F(1)})
            nm = _intern(f"pow({b.key()};{x.key()})", "pow", (b, x))
            r = r * Rat({((nm, c if c.denominator != 1 else F(int(c))),): F(1)})
    return r


def _root(b, fr):
    q = fr.denominator
    nm = _intern(f"root{q}({b.key()})", "root", (b,), q)
    return preduce_rat(Rat({((nm, fr.numerator),): F(1)}))


def preduce_rat(r):
    return Rat(preduce(dict(r.num)), r.den)


# ---------------------------------------------------------------- substitution

def subst(r, mapping, memo=None):
    """replace atoms (by canonical name) with Rats, rebuilding everything"""
    memo = {} if memo is None else memo

    def atom(a):
        if a in memo:
            return memo[a]
        at = ATOMS[a]
        if a in mapping:
            v = mapping[a]
        elif at.kind == "sym":
            v = Rat({((a, 1),): F(1)})
        else:
            args = [go(x) if isinstance(x, Rat) else x for x in at.args]
            if all(
                (x is y) or (isinstance(x, Rat) and x.key() == y.key())
                for x, y in zip(args, at.args)
            ):
                v = Rat({((a, 1),): F(1)})
            elif at.kind == "call":
                v = call(at.extra, args)
            elif at.kind == "exp":
                v = exp(args[0])
            elif at.kind == "pow":
                v = power(args[0], args[1])
            elif at.kind == "root":
                v = power(args[0], rat(F(1, at.extra)))
            elif at.kind == "sum":
                v = mksum(args[0], args[1], args[2], at.extra)
            else:
                v = fn(at.kind, args[0])
        memo[a] = v
        return v

    def poly(p):
        s = rat(0)
        for m, c in p.items():
            t = rat(c)
            for a, e in m:
                e = F(e)
                v = atom(a)
                if e.denominator == 1:
                    t = t * v.ipow(int(e))
                else:
                    t = t * power(v, rat(e))
            s = s + t
        return s

    def go(x):
        return poly(x.num) / poly(x.den)

    return go(r)


# ------------------------------------------------------------- differentiation

def diff(r, var, rules=None):
    """d r / d var ; var: symbol atom name.

    ``rules``: callable(atom)->Rat or None giving the derivative of opaque
    call atoms (None: derivative is 0 iff var does not occur in args, else
    Undecided)."""

    def datom(a):
        at = ATOMS[a]
        if a == var:
            return rat(1)
        if at.kind == "sym":
            return rat(0)
        if rules:
            v = rules(at)
            if v is not None:
                return v
        if not any(isinstance(x, Rat) and var in x.atoms() for x in at.args):
            return rat(0)
        x = at.args[0]
        A = Rat({((a, 1),): F(1)})
        if at.kind == "cos":
            return -fn("sin", x) * d(x)
        if at.kind == "sin":
            return fn("cos", x) * d(x)
        if at.kind == "exp":
            return A * d(x)
        if at.kind == "log":
            return d(x) / x
        if at.kind == "root":
            # b^(1/q)
            return A * rat(F(1, at.extra)) * d(x) / x
        if at.kind == "pow":
            b, e = at.args
            return A * (d(e) * fn("log", b) + e * d(b) / b)
        raise Undecided(f"derivative of {at.name}")

    def dp(p):
        s = rat(0)
        for m, c in p.items():
            for a, e in m:
                da = datom(a)
                if da.num:
                    rest = mmul(m, ((a, -e),))
                    s = s + rat(c) * rat(F(e)) * da * Rat({rest: F(1)}) * (
                        Rat({((a, e - 1),): F(1)}) if e != 1 else rat(1)
                    )
        return s

    def d(x):
        n, dd = Rat(dict(x.num)), Rat(dict(x.den))
        if x.den == ONE_P:
            return dp(x.num)
        return (dp(x.num) * dd - n * dp(x.den)) / (dd * dd)

    return d(r)


# ---------------------------------------------------------------------- sums

_SV = ["$i", "$j", "$k", "$l"]


def bound_depth(r):
    n = 0
    for a in r.atoms():
        if ATOMS[a].kind == "sum":
            n = max(n, 1 + bound_depth(ATOMS[a].args[2]))
    return n


def mksum(lo, hi, body, var):
    """sum_{var=lo}^{hi} body (hi inclusive), normalised so the index runs from 0
    and is called by nesting depth"""
    d = bound_depth(body)
    v = _SV[d]
    body = subst(body, {var: sym(v) + lo}) if var != v or lo.const() != 0 else body
    n = hi - lo
    c = n.const()
    if c is not None and c.denominator == 1 and c <= 12:
        s = rat(0)
        for k in range(int(c) + 1):
            s = s + subst(body, {v: rat(k)})
        return s
    # linearity : one sum per monomial, factors free of the index pulled out
    if body.den == ONE_P:
        tot = rat(0)
        for m, c in body.num.items():
            free, dep = [], []
            for a, e in m:
                at = ATOMS[a]
                isdep = a == v or any(
                    isinstance(x, Rat) and v in x.atoms() for x in at.args
                )
                (dep if isdep else free).append((a, e))
            if not dep:
                tot = tot + rat(c) * Rat({tuple(free): F(1)}) * (n + 1)
            else:
                b = Rat({tuple(dep): F(1)})
                k = f"sum[{v}<={n.key()}]({b.key()})"
                s = Rat({((_intern(k, "sum", (rat(0), n, b), v), 1),): F(1)})
                tot = tot + rat(c) * Rat({tuple(free): F(1)}) * s
        return tot
    k = f"sum[{v}<={n.key()}]({body.key()})"
    return Rat({((_intern(k, "sum", (rat(0), n, body), v), 1),): F(1)})
