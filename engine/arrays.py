"""Symbolic n-dimensional arrays with numpy semantics.

An array is a view on a Buffer; a Buffer maps an index (one *point* per axis) to an
element.  Points are tuples of integer terms: one component for an ordinary axis, several
for an axis that flattens several dimensions.  An axis may be restricted by a guard
(result of boolean masking): its elements are addressed by the index they had before
masking."""
from fractions import Fraction
import math

from .terms import *
from . import logic as L
from . import terms as T
from .ctx import ctx, SpecError


# ------------------------------------------------------------------ elements
class Num:
    __slots__ = ("p", "nan", "pinf", "ninf", "int")

    def __init__(self, p, nan=FALSE, pinf=FALSE, ninf=FALSE, int=False):
        self.p = p
        self.nan = nan
        self.pinf = pinf
        self.ninf = ninf
        self.int = int

    def __repr__(self):
        s = repr(self.p)
        if self.flagged:
            s += f" nan:{self.nan!r} +inf:{self.pinf!r} -inf:{self.ninf!r}"
        return s

    def __add__(self, o): return n_add(self, num(o))
    def __radd__(self, o): return n_add(num(o), self)
    def __sub__(self, o): return n_sub(self, num(o))
    def __rsub__(self, o): return n_sub(num(o), self)
    def __mul__(self, o): return n_mul(self, num(o))
    def __rmul__(self, o): return n_mul(num(o), self)
    def __truediv__(self, o): return n_div(self, num(o))
    def __rtruediv__(self, o): return n_div(num(o), self)
    def __pow__(self, o): return n_pow(self, num(o))
    def __rpow__(self, o): return n_pow(num(o), self)
    def __neg__(self): return n_neg(self)
    def __lt__(self, o): return n_lt(self, num(o))
    def __le__(self, o): return n_le(self, num(o))
    def __gt__(self, o): return n_lt(num(o), self)
    def __ge__(self, o): return n_le(num(o), self)

    @property
    def flagged(self):
        return not (self.nan is FALSE and self.pinf is FALSE and self.ninf is FALSE)

    @property
    def fin(self):
        return And(Not(self.nan), Not(self.pinf), Not(self.ninf))

    @property
    def inf(self):
        return Or(self.pinf, self.ninf)


NAN = Num(ZERO, nan=TRUE)
PINF = Num(ZERO, pinf=TRUE)
NINF = Num(ZERO, ninf=TRUE)


def num(x):
    if isinstance(x, Num):
        return x
    if isinstance(x, Poly):
        return Num(x, int=x.is_int())
    if isinstance(x, B):
        return Num(ind_poly(x), int=True)
    if isinstance(x, bool):
        return Num(ONE if x else ZERO, int=True)
    if isinstance(x, int):
        return Num(Poly.const(x), int=True)
    if isinstance(x, Fraction):
        return Num(Poly.const(x))
    if isinstance(x, float):
        if math.isnan(x):
            return NAN
        if math.isinf(x):
            return PINF if x > 0 else NINF
        return Num(Poly.const(Fraction(repr(x))))
    raise Unsupported(f"not a number: {type(x)}")


def n_add(a, b):
    if not (a.flagged or b.flagged):
        return Num(a.p + b.p, int=a.int and b.int)
    nan = Or(a.nan, b.nan, And(a.pinf, b.ninf), And(a.ninf, b.pinf))
    return Num(a.p + b.p, nan, And(Not(nan), Or(a.pinf, b.pinf)), And(Not(nan), Or(a.ninf, b.ninf)))


def n_neg(a):
    return Num(-a.p, a.nan, a.ninf, a.pinf, a.int)


def n_sub(a, b):
    return n_add(a, n_neg(b))


def cancel(p):
    """x / x = 1 for denominators x of several terms which are not zero here"""
    if len(p.m) < 2:
        return p
    seen = set()
    for mo in list(p.m):
        for a, e in mo:
            if a.kind != "den" or a in seen:
                continue
            seen.add(a)
            if len(p.m) > 40:
                return p
            part = Poly({tuple((x, k) for x, k in m if x is not a): c for m, c in p.m.items() if (a, -1) in m})
            rest = Poly({m: c for m, c in p.m.items() if not any(x is a for x, _ in m)})
            if len(part.m) + len(rest.m) != len(p.m):
                continue
            d = T.divide_out(part, a.poly)
            if d is not None and ctx().never(Eq(a.poly, 0)) is FALSE:
                return cancel(d + rest)
    return p


def n_mul(a, b):
    if not (a.flagged or b.flagged):
        return Num(cancel(a.p * b.p), int=a.int and b.int)
    for x, y in ((a, b), (b, a)):
        if not y.flagged and (x.inf is not FALSE):
            if Lt(0, y.p) is TRUE:
                return Num(x.p * y.p, x.nan, x.pinf, x.ninf)
            if Lt(y.p, 0) is TRUE:
                return Num(x.p * y.p, x.nan, x.ninf, x.pinf)
    za = And(Not(a.inf), Not(a.nan), Eq(a.p, 0)) if b.inf is not FALSE else FALSE
    zb = And(Not(b.inf), Not(b.nan), Eq(b.p, 0)) if a.inf is not FALSE else FALSE
    nan = Or(a.nan, b.nan, And(b.inf, za), And(a.inf, zb))
    if a.inf is FALSE and b.inf is FALSE:
        return Num(a.p * b.p, nan)
    pos = Or(And(n_gt0(a), n_gt0(b)), And(n_lt0(a), n_lt0(b)))
    inf = And(Not(nan), Or(a.inf, b.inf))
    return Num(a.p * b.p, nan, And(inf, pos), And(inf, Not(pos)))


def n_gt0(a):
    return Or(a.pinf, And(Not(a.ninf), Not(a.nan), Lt(0, a.p)))


def n_lt0(a):
    return Or(a.ninf, And(Not(a.pinf), Not(a.nan), Lt(a.p, 0)))


def sum_factors(b):
    """the factors of b = x * y, where sums occur in x only and their coefficients are y"""
    if 4 <= len(b.m) <= 60:
        for a in b.atoms():
            if a.kind == "app" and a.fn.agg is not None and a.fn.agg.kind == "sum":
                y = Poly({tuple((x, e) for x, e in m if x is not a): c for m, c in b.m.items() if (a, 1) in m})
                if len(y.m) >= 2 and not any(x.kind == "app" and x.fn.agg is not None and x.fn.agg.kind == "sum" for x in y.atoms()):
                    x = T.exact_div(b, y)
                    if x is not None:
                        return [x, y]
                break
    return [b] if b.m else []


def n_div(a, b):
    z = Eq(b.p, 0)
    if z is not FALSE:
        if b.fin is not TRUE:
            z = And(b.fin, z)
        z = ctx().never(z)
    if z is FALSE and not a.flagged and not b.flagged:
        e = T.exact_div(a.p, b.p)
        if e is not None:
            return Num(e)
        p = a.p
        for f in sum_factors(b.p):
            e = T.divide_out(p, f)
            p = p / f if e is None else e
        return Num(p)
    q = a.p if b.p.m else ZERO
    for f in sum_factors(b.p):
        e = None if z is not FALSE else T.divide_out(q, f)
        q = q / f if e is None else e
    binf = b.inf
    a0 = And(a.fin, Eq(a.p, 0))
    nan = Or(a.nan, b.nan, And(z, a0), And(binf, a.inf))
    fin_b = And(b.fin, Not(z))
    pinf = And(Not(nan), Or(And(z, n_gt0(a)), And(fin_b, Or(And(a.pinf, Lt(0, b.p)), And(a.ninf, Lt(b.p, 0)))))) if not (z is FALSE and a.inf is FALSE) else FALSE
    ninf = And(Not(nan), Or(And(z, n_lt0(a)), And(fin_b, Or(And(a.ninf, Lt(0, b.p)), And(a.pinf, Lt(b.p, 0)))))) if not (z is FALSE and a.inf is FALSE) else FALSE
    if binf is not FALSE:
        q = ite(binf, ZERO, q)
    return Num(q, nan, pinf, ninf)


def n_lt(a, b):
    if not (a.flagged or b.flagged):
        return Lt(a.p, b.p)
    return And(Not(a.nan), Not(b.nan), Or(And(a.ninf, Not(b.ninf)), And(b.pinf, Not(a.pinf)),
                                          And(Not(a.inf), Not(b.inf), Lt(a.p, b.p))))


def n_eq(a, b):
    if not (a.flagged or b.flagged):
        return Eq(a.p, b.p)
    return And(Not(a.nan), Not(b.nan), Or(And(a.pinf, b.pinf), And(a.ninf, b.ninf),
                                          And(Not(a.inf), Not(b.inf), Eq(a.p, b.p))))


def n_le(a, b):
    if not (a.flagged or b.flagged):
        return Le(a.p, b.p)
    return Or(n_lt(a, b), n_eq(a, b))


def n_ite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    # do not let the unused branch's values leak where it is flagged as not finite
    return Num(ite(c, a.p, b.p), IteB(c, a.nan, b.nan), IteB(c, a.pinf, b.pinf), IteB(c, a.ninf, b.ninf), a.int and b.int)


def same(a, b):
    """equality as values: nan equals nan, inf equals inf"""
    if isinstance(a, B) or isinstance(b, B):
        return Iff(as_bool(a), as_bool(b))
    a, b = num(a), num(b)
    if not (a.flagged or b.flagged):
        return Eq(a.p, b.p)
    return And(Iff(a.nan, b.nan), Iff(a.pinf, b.pinf), Iff(a.ninf, b.ninf),
               Or(Not(a.fin), Eq(a.p, b.p)))


def as_bool(x):
    if isinstance(x, B):
        return x
    if isinstance(x, Num):
        return Or(x.nan, x.inf, Ne(x.p, 0))
    return BC(bool(x))


def e_ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if isinstance(a, B) and isinstance(b, B):
        return IteB(c, a, b)
    if isinstance(a, (Num, B)) and isinstance(b, (Num, B)):
        return n_ite(c, num(a), num(b))
    if a is b or (type(a) is type(b) and a == b):
        return a
    if isinstance(a, Choice) or isinstance(b, Choice) or isinstance(a, str) or isinstance(b, str) or type(a).__name__ == "SymStr" or type(b).__name__ == "SymStr":
        return Choice([(c, a), (Not(c), b)])
    raise Unsupported(f"conditional value of {type(a).__name__} and {type(b).__name__}")


class Choice:
    """guarded choice of opaque values"""

    def __init__(self, alts):
        out = []
        for c, v in alts:
            if isinstance(v, Choice):
                out += [(And(c, c2), v2) for c2, v2 in v.alts]
            else:
                out.append((c, v))
        self.alts = [(c, v) for c, v in out if c is not FALSE]


# ------------------------------------------------------------------ functions on reals
def _upper(name):
    return name


PI_ATOM = Var("pi", "R", pos=True)
PI = Poly.atom(PI_ATOM)


def pi_facts():
    return [Lt(Poly.const(Fraction("3.14159265")), PI), Lt(PI, Poly.const(Fraction("3.14159266")))]


def _ax_unit(fn):
    def ax(x):
        y = app(fn, x)
        return [Le(y, 1), Le(-1, y)]
    return ax


COS = T.Fn("cos", 1, "R", argsorts=("R",))
SIN = T.Fn("sin", 1, "R", argsorts=("R",))
COS.axioms.append(lambda x: [Le(app(COS, x), 1), Le(-1, app(COS, x)), Implies(Eq(x, 0), Eq(app(COS, x), 1)),
                             Implies(Eq(x, PI), Eq(app(COS, x), -1)), *pi_facts(),
                             Implies(And(Lt(0, x), Lt(x, PI)), And(Lt(app(COS, x), 1), Lt(-1, app(COS, x))))])
COS.pair_axioms.append(lambda a, b: [Implies(And(Le(0, a[0]), Lt(a[0], b[0]), Le(b[0], PI)), Lt(app(COS, b[0]), app(COS, a[0]))),
                                     Implies(Eq(a[0], -b[0]), Eq(app(COS, a[0]), app(COS, b[0])))])
SIN.axioms.append(lambda x: [Le(app(SIN, x), 1), Le(-1, app(SIN, x)), Implies(Eq(x, 0), Eq(app(SIN, x), 0)), *pi_facts(),
                             Implies(And(Lt(0, x), Lt(x, PI)), Lt(0, app(SIN, x)))])
SIN.pair_axioms.append(lambda a, b: [Implies(And(Le(-PI, a[0] * 2), Lt(a[0], b[0]), Le(b[0] * 2, PI)), Lt(app(SIN, a[0]), app(SIN, b[0]))),
                                     Implies(Eq(a[0], -b[0]), Eq(app(SIN, a[0]), -app(SIN, b[0])))])
LOG = T.Fn("ln", 1, "R", argsorts=("R",))
LOG.axioms.append(lambda x: [Implies(Lt(1, x), Lt(0, app(LOG, x))), Implies(Eq(x, 1), Eq(app(LOG, x), 0)),
                             Implies(And(Lt(0, x), Lt(x, 1)), Lt(app(LOG, x), 0))])
LOG.pair_axioms.append(lambda a, b: [Implies(And(Lt(0, a[0]), Lt(a[0], b[0])), Lt(app(LOG, a[0]), app(LOG, b[0])))])
LOG10C = Poly.atom(Var("ln10", "R", pos=True))
EXP = T.Fn("exp", 1, "R", pos=True, argsorts=("R",))
EXP.axioms.append(lambda x: [Implies(Lt(0, x), Lt(1, app(EXP, x))), Implies(Eq(x, 0), Eq(app(EXP, x), 1)), Implies(Lt(x, 0), Lt(app(EXP, x), 1))])
EXP.pair_axioms.append(lambda a, b: [Implies(Lt(a[0], b[0]), Lt(app(EXP, a[0]), app(EXP, b[0])))])
PW = T.Fn("pw", 2, "R", pos=True, argsorts=("R", "R"))   # base > 0, real exponent
PW.axioms.append(lambda x, e: [Implies(And(Lt(1, x), Lt(0, e)), Lt(1, app(PW, x, e))),
                               Implies(And(Lt(1, x), Lt(e, 0)), Lt(app(PW, x, e), 1)),
                               Implies(Eq(e, 0), Eq(app(PW, x, e), 1)), Implies(Eq(x, 1), Eq(app(PW, x, e), 1))])
PW.pair_axioms.append(lambda a, b: [Implies(And(Eq(a[1], b[1]), Lt(0, a[1]), Lt(0, a[0]), Lt(a[0], b[0])), Lt(app(PW, *a), app(PW, *b))),
                                    Implies(And(Eq(a[1], b[1]), Lt(a[1], 0), Lt(0, a[0]), Lt(a[0], b[0])), Lt(app(PW, *b), app(PW, *a)))])
SQRT = T.Fn("sqrt", 1, "R", nonneg=True, argsorts=("R",))
SQRT.axioms.append(lambda x: [Implies(Le(0, x), Eq(app(SQRT, x) * app(SQRT, x), x)), Implies(Lt(0, x), Lt(0, app(SQRT, x)))])
FLOOR = T.Fn("floor", 1, "I", argsorts=("R",))


def is_whole(p):
    """an integer, by its form"""
    return all(c.denominator == 1 and all(e > 0 and (x.kind == "ind" or x.kind == "var" and x.sort == "I" or x.kind == "app" and x.fn.sort == "I") for x, e in mo) for mo, c in p.m.items())


def floor_term(p):
    return p if is_whole(p) else app(FLOOR, p)


T.REBUILD["floor"] = floor_term
FLOOR.axioms.append(lambda x: [Le(app(FLOOR, x), x), Lt(x, app(FLOOR, x) + 1)])
ACOS = T.Fn("arccos", 1, "R", nonneg=True, argsorts=("R",))
ACOS.axioms.append(lambda x: [Le(app(ACOS, x), PI), Implies(And(Le(-1, x), Lt(x, 1)), Lt(0, app(ACOS, x))), *pi_facts()])


def _single_pos(p):
    if len(p.m) != 1:
        return None
    (mo, c), = p.m.items()
    if c > 0 and all(T.atom_pos(a) for a, _ in mo):
        return mo, c
    return None


def t_log(p):
    """natural logarithm of a positive term, split over positive products"""
    p = P(p)
    if split_ind(p) is not None:
        r = ZERO
        for c, q in cases(p):
            r = r + ind_poly(c) * t_log(q)
        return r
    sp = _single_pos(p)
    if sp is None:
        # split off positive factors
        if len(p.m) > 1:
            g, q = T.content(p)
            sg = _single_pos(g) or _single_pos(-g)
            if sg and (g != ONE):
                if _single_pos(g) is None:
                    g, q = -g, -q
                return t_log(g) + app(LOG, q)
        elif p.m:
            (mo, c), = p.m.items()
            inn = tuple((a, e) for a, e in mo if T.atom_pos(a))
            if inn and len(inn) < len(mo):
                rest = Poly({tuple(x for x in mo if x not in inn): c})
                return t_log(Poly({inn: Fraction(1)})) + app(LOG, rest)
        return app(LOG, p)
    mo, c = sp
    r = ZERO
    if c != 1:
        r = r + log_const(c)
    for a, e in mo:
        if a.kind == "app" and a.fn is EXP:
            x = a.args[0]
        elif a.kind == "app" and a.fn is PW:
            x = a.args[1] * t_log(a.args[0])
        else:
            x = app(LOG, Poly.atom(a) if a.kind != "den" else a.poly)
        r = r + x * e
    return r


def log_const(c):
    c = Fraction(c)
    r = ZERO
    k = 0
    n, d = c.numerator, c.denominator
    # powers of ten are split off
    while n % 10 == 0:
        n //= 10
        k += 1
    while d % 10 == 0:
        d //= 10
        k -= 1
    r = LOG10C * k
    if Fraction(n, d) != 1:
        r = r + app(LOG, Poly.const(Fraction(n, d)))
    return r


def t_exp(p):
    p = P(p)
    if split_ind(p) is not None:
        r = ZERO
        for c, q in cases(p):
            r = r + ind_poly(c) * t_exp(q)
        return r
    r = ONE
    rest = ZERO
    for mo, c in p.m.items():
        logs = [(a, e) for a, e in mo if a.kind == "app" and a.fn is LOG and e == 1]
        if logs:
            a, _ = logs[0]
            e = Poly({tuple(x for x in mo if x[0] is not a): c})
            r = r * t_pow(a.args[0], e)
        elif any(x is LOG10C.atoms()[0] and e == 1 for x, e in mo):
            e = Poly({tuple(x for x in mo if x[0] is not LOG10C.atoms()[0]): c})
            r = r * t_pow(Poly.const(10), e)
        else:
            rest = rest + Poly({mo: c})
    if rest.m:
        # canonical: integer multiples of monomials become powers
        for mo, c in rest.m.items():
            if c.denominator == 1:
                r = r * (app(EXP, Poly({mo: Fraction(1)})) ** int(c))
            else:
                s = 1 if c > 0 else -1
                r = r * (app(EXP, Poly({mo: abs(c)})) ** s)
    return r


def t_pow(base, e):
    """base ** e for base > 0 and a real term e"""
    base, e = P(base), P(e)
    for which, t in ((0, base), (1, e)):
        if split_ind(t) is not None:
            r = ZERO
            for c, q in cases(t):
                r = r + ind_poly(c) * (t_pow(q, e) if which == 0 else t_pow(base, q))
            return r
    if e.is_const() and e.cval().denominator == 1:
        return base ** int(e.cval())
    sp = _single_pos(base)
    if sp is None:
        g, q = (T.content(base) if len(base.m) > 1 else (ONE, base))
        sg = _single_pos(g)
        if sg is None and _single_pos(-g):
            g, q = -g, -q
            sg = _single_pos(g)
        if sg and g != ONE:
            return t_pow(g, e) * _pw1(q, e)
        return _pw1(base, e)
    mo, c = sp
    r = ONE
    if c != 1:
        r = r * _pw_const(c, e)
    for a, k in mo:
        if a.kind == "app" and a.fn is PW:
            r = r * t_pow(a.args[0], a.args[1] * e * k)
        elif a.kind == "app" and a.fn is EXP:
            r = r * t_exp(a.args[0] * e * k)
        else:
            r = r * _pw1(Poly.atom(a) if a.kind != "den" else a.poly, e * k)
    return r


def _pw_const(c, e):
    r = ONE
    n, d = c.numerator, c.denominator
    k = 0
    while n % 10 == 0:
        n //= 10
        k += 1
    while d % 10 == 0:
        d //= 10
        k -= 1
    if k:
        r = r * _pw1(Poly.const(10), e * k)
    if n != 1:
        r = r * _pw1(Poly.const(n), e)
    if d != 1:
        r = r * _pw1(Poly.const(d), -e)
    return r


def _pw1(base, e):
    """base: a single atom, a constant or an opaque positive polynomial"""
    r = ONE
    for mo, c in e.m.items():
        if not mo:
            k = int(c // 1)
            f = c - k
            r = r * base ** k
            if f:
                r = r * (app(SQRT, base) if f == Fraction(1, 2) else app(PW, base, Poly.const(f)))
            continue
        if base.is_const() and base.cval() == 10:
            l10 = LOG10C.atoms()[0]
            logs = [a for a, k in mo if a.kind == "app" and a.fn is LOG and k == 1]
            if logs and (l10, -1) in mo:
                a = logs[0]
                ee = Poly({tuple(x for x in mo if x[0] is not a and x[0] is not l10): c})
                r = r * t_pow(a.args[0], ee)
                continue
        if c.denominator == 1:
            r = r * app(PW, base, Poly({mo: Fraction(1)})) ** int(c)
        else:
            s = 1 if c > 0 else -1
            r = r * app(PW, base, Poly({mo: abs(c)})) ** s
    return r


def t_sqrt(p):
    if split_ind(p) is not None:
        r = ZERO
        for c, q in cases(p):
            r = r + ind_poly(c) * t_sqrt(q)
        return r
    if p.is_const():
        n, d = p.cval().numerator, p.cval().denominator
        if n >= 0:
            a, b = math.isqrt(n), math.isqrt(d)
            if a * a == n and b * b == d:
                return Poly.const(Fraction(a, b))
        return app(SQRT, p)
    if len(p.m) == 1:
        (mo, c), = p.m.items()
        out, inn = [], []
        for a, e in mo:
            if T.atom_pos(a):
                k = e // 2
                if k:
                    out.append((a, k))
                if e % 2:
                    inn.append((a, 1))
            else:
                inn.append((a, e))
        r = Poly({tuple(out): Fraction(1)})
        rest = Poly({tuple(inn): c})
        if rest == ONE:
            return r
        return r * app(SQRT, rest)
    g, q = T.content(p)
    gg = Poly({tuple((a, e - e % 2) for a, e in mo if T.atom_pos(a) and e - e % 2): Fraction(1) for mo, c in g.m.items()})
    if gg != ONE:
        return t_sqrt(gg) * app(SQRT, p * recip(gg))
    return app(SQRT, p)


def t_cos(p):
    if p.is_const() and p.cval() == 0:
        return ONE
    if split_ind(p) is not None:
        return app_cases(t_cos, p)
    return app(COS, canon_sign(p)[0])


def t_sin(p):
    if p.is_const() and p.cval() == 0:
        return ZERO
    if split_ind(p) is not None:
        return app_cases(t_sin, p)
    q, s = canon_sign(p)
    return app(SIN, q) * s


def canon_sign(p):
    lead = min(p.m.items(), key=lambda t: tuple((a.id, e) for a, e in t[0]))[1]
    return (p, 1) if lead > 0 else (-p, -1)


def app_cases(f, p):
    r = ZERO
    for c, q in cases(p):
        r = r + ind_poly(c) * f(q)
    return r


T.REBUILD["cos"] = t_cos
T.REBUILD["sin"] = t_sin
T.REBUILD["ln"] = t_log
T.REBUILD["exp"] = t_exp
T.REBUILD["pw"] = t_pow
T.REBUILD["sqrt"] = t_sqrt


def n_unary(f, x, dom=None):
    """elementwise real function; dom(p) gives (nan condition, +inf cond, -inf cond)"""
    x = num(x)
    nan, pinf, ninf = x.nan, FALSE, FALSE
    if dom:
        a, b, c = dom(x)
        nan, pinf, ninf = ctx().never(Or(nan, a)), ctx().never(b), ctx().never(c)
    elif x.inf is not FALSE:
        nan = Or(nan, x.inf)
    return Num(f(x.p), nan, pinf, ninf)


def n_log(x):
    def dom(x):
        return (Or(x.ninf, And(x.fin, Lt(x.p, 0))), x.pinf, And(x.fin, Eq(x.p, 0)))
    return n_unary(t_log, x, dom)


def n_sqrt(x):
    return n_unary(t_sqrt, x, lambda x: (Or(x.ninf, And(x.fin, Lt(x.p, 0))), x.pinf, FALSE))


def n_exp(x):
    r = n_unary(t_exp, x, lambda x: (FALSE, x.pinf, FALSE))
    if x.ninf is not FALSE:
        r = n_ite(x.ninf, num(0.0), r)
    return r


def n_cos(x):
    return n_unary(t_cos, x)


def n_sin(x):
    return n_unary(t_sin, x)


def sine_squared(p):
    """(c sin x)^2 = c^2 (1 - cos 2x) / 2"""
    if len(p.m) != 1:
        return None
    (mo, c), = p.m.items()
    for k, (a, e) in enumerate(mo):
        if a.fn is SIN and e == 1:
            rest = Poly({mo[:k] + mo[k + 1:]: c})
            return rest * rest * (ONE - t_cos(P(a.args[0]) * 2)) / 2
    return None


def n_pow(a, b):
    a, b = num(a), num(b)
    if b.p.is_const() and not b.flagged and b.p.cval().denominator == 1:
        k = int(b.p.cval())
        if k == 2 and a.inf is FALSE:
            sq = sine_squared(a.p)
            if sq is not None:
                return Num(sq, a.nan)
        if k >= 0:
            if not a.flagged:
                return Num(a.p ** k, int=a.int and b.int)
            r = num(1.0)
            for _ in range(k):
                r = n_mul(r, a)
            return r
        return n_div(num(1.0), n_pow(a, num(-k)))
    if b.flagged or a.flagged:
        nan = Or(a.nan, b.nan)
        if a.inf is not FALSE or b.inf is not FALSE:
            raise Unsupported("power with infinities")
    else:
        nan = FALSE
    # positive base: real power; zero base: 0 / 1 / inf; negative base: nan unless integer
    neg = ctx().never(Lt(a.p, 0))
    zero = ctx().never(Eq(a.p, 0))
    if neg is FALSE and zero is FALSE:
        return Num(t_pow(a.p, b.p), nan)
    p = ite(zero, ite(Eq(b.p, 0), ONE, ZERO), t_pow(a.p, b.p))
    if neg is not FALSE:
        odd = T.Fn("negpow", 2, "R") if "negpow" not in _misc else _misc["negpow"]
        _misc["negpow"] = odd
        p = ite(neg, app(odd, a.p, b.p), p)
        isint = FALSE
        nan = Or(nan, And(neg, Not(isint)))
    return Num(p, nan, And(zero, Lt(b.p, 0)), FALSE)


_misc = {}


def n_floor(x):
    x = num(x)
    return Num(floor_term(x.p), x.nan, x.pinf, x.ninf)


def n_abs(x):
    x = num(x)
    if not x.flagged and T.poly_nonneg(x.p):
        return x
    return Num(ite(Lt(x.p, 0), -x.p, x.p), x.nan, x.inf, FALSE, x.int)


# ------------------------------------------------------------------ axes
class Axis:
    __slots__ = ("base", "guard", "_size", "tag")

    def __init__(self, base, guard=None, tag=None):
        self.base = tuple(P(b) for b in base)
        self.guard = guard
        self._size = None
        self.tag = tag

    @property
    def plain(self):
        return len(self.base) == 1 and self.guard is None

    @property
    def size(self):
        if self._size is None:
            if self.guard is None:
                r = ONE
                for b in self.base:
                    r = r * b
                self._size = r
            else:
                self._size = L.bsum(self.base, lambda *i: ONE, self.guard)
        return self._size

    @property
    def is1(self):
        return self.guard is None and all(b == ONE for b in self.base)

    def const(self):
        s = self.size
        return int(s.cval()) if s.is_const() else None

    def vars(self, prefix="i"):
        return tuple(ctx().index_var(b, prefix) for b in self.base)

    def cond(self, pt):
        return TRUE if self.guard is None else self.guard(*pt)

    def __repr__(self):
        return f"Axis{self.base}{'|guard' if self.guard else ''}"


def ax(n):
    return n if isinstance(n, Axis) else Axis((P(n),))


AX1 = Axis((ONE,))


def axes_equal(a, b):
    """provably the same axis; None when sizes are merely unknown"""
    if a is b:
        return True
    if a.guard is None and b.guard is None and len(a.base) == len(b.base):
        if all(x == y for x, y in zip(a.base, b.base)):
            return True
        return None
    if len(a.base) == len(b.base) and all(x == y for x, y in zip(a.base, b.base)):
        pt = a.vars("g")
        e = Iff(a.cond(pt), b.cond(pt))
        if ctx().entails(e):
            return True
    return None


def unify_axis(a, b):
    """broadcast two axes"""
    if a.is1:
        return b
    if b.is1:
        return a
    e = axes_equal(a, b)
    if e:
        return a
    if a.plain and b.plain:
        ca, cb = a.const(), b.const()
        if ca is not None and cb is not None:
            raise ValueError(f"operands could not be broadcast together with shapes ({ca},) ({cb},)")
        if ctx().entails(Eq(a.size, b.size)):
            return a if ca is None else a
        # numpy also stretches axes of length one
        if a.const() is None and ctx().fork(Eq(a.size, 1)):
            return b
        if b.const() is None and ctx().fork(Eq(b.size, 1)):
            return a
        if ctx().fork(Eq(a.size, b.size)):
            return a
        raise ValueError("operands could not be broadcast together")
    if a.guard is not None or b.guard is not None:
        if not ctx().fork(Eq(a.size, b.size)):
            raise ValueError("operands could not be broadcast together (masked)")
        raise Unsupported("combining arrays with different selections")
    raise Unsupported("combining differently flattened axes")


# ------------------------------------------------------------------ buffers and arrays
class Buffer:
    __slots__ = ("axes", "fn", "kind", "cache", "name", "orig", "writes", "born", "fn_before", "cache_before")

    def __init__(self, axes, fn, kind, name=None):
        self.axes = tuple(axes)
        self.fn = fn
        self.kind = kind
        self.cache = {}
        self.name = name
        self.orig = fn
        self.writes = 0
        self.born = len(ctx().loops)

    def elt(self, idx):
        for lp in ctx().loops:
            if self.born <= lp.depth:
                lp.note_read(self, idx)
        k = tuple(tuple(t.key for t in pt) for pt in idx)
        h = (k, len(ctx().assume_stack) and tuple(x.id for x in ctx().assume_stack))
        r = self.cache.get(h)
        if r is None:
            r = self.fn(idx)
            self.cache[h] = r
        return r

    def snapshot(self, track=True):
        fn, cache = self.fn, self.cache
        if fn is None:
            raise Unsupported("buffer")
        watch = [lp for lp in ctx().loops if self.born <= lp.depth] if track else []
        if watch:
            inner = self.snapshot(False)

            def rdw(idx):
                for lp in watch:
                    if lp.finished:
                        if self in getattr(lp, "written", {}):
                            lp.check_read(self, idx)
                    else:
                        lp.note_read(self, idx)
                return inner(idx)
            return rdw

        def rd(idx):
            k = tuple(tuple(t.key for t in pt) for pt in idx)
            h = (k, len(ctx().assume_stack) and tuple(x.id for x in ctx().assume_stack))
            r = cache.get(h)
            if r is None:
                r = cache[h] = fn(idx)
            return r
        return rd

    def write(self, cond, val):
        old = self.snapshot(False)

        def fn(idx):
            c = cond(idx)
            if c is FALSE:
                return old(idx)
            if c is TRUE:
                return val(idx)
            return e_ite(c, val(idx), old(idx))
        if ctx().loops:
            self.fn_before, self.cache_before = self.fn, dict(self.cache)
            # enclosing loops get the summary of the inner one
            ctx().loops[-1].note_write(self, cond, val)
        self.fn = fn
        self.cache = {}
        self.writes += 1


class Arr:
    __array_priority__ = 1000
    unit_ = None

    def __init__(self, axes, fn=None, kind="f", buf=None, view=None):
        self.axes = tuple(ax(a) for a in axes)
        self.buf = buf if buf is not None else Buffer(self.axes, fn, kind)
        self.view = view
        self.kind = self.buf.kind

    # -- structure
    @property
    def ndim(self):
        return len(self.axes)

    @property
    def shape(self):
        return SShape([dim_value(a) for a in self.axes])

    @property
    def size(self):
        r = ONE
        for a in self.axes:
            r = r * a.size
        return scalar_int(r)

    @property
    def dtype(self):
        return SDtype(self.kind)

    @property
    def T(self):
        return self.transpose()

    @property
    def flags(self):
        raise Unsupported("flags")

    def reader(self):
        """function idx -> element, value semantics as of now"""
        rd = self.buf.snapshot()
        view = self.view
        if view is None:
            return rd
        return lambda idx: rd(map_view(view, idx))

    def elt(self, idx):
        if self.view is None:
            return self.buf.elt(idx)
        return self.buf.elt(map_view(self.view, idx))

    def at(self, *idx):
        """specification access: element at integer terms (one per axis)"""
        return self.elt(tuple((P(i),) if not isinstance(i, tuple) else i for i in idx))

    def _like(self, axes, fn, kind=None):
        return type(self).make(self, axes, fn, kind or self.kind)

    @classmethod
    def make(cls, proto, axes, fn, kind):
        return Arr(axes, fn, kind)

    def scalar(self):
        if self.axes and not all(a.is1 for a in self.axes):
            raise Unsupported("array used as a scalar")
        z = tuple(tuple(ZERO for _ in a.base) for a in self.axes)
        return self.elt(z)

    def with_view(self, axes, view):
        r = type(self).__new__(type(self))
        Arr.__init__(r, axes, buf=self.buf, view=view)
        self._copy_attrs(r)
        return r

    def _copy_attrs(self, r):
        pass

    def _vmap(self):
        if self.view is not None:
            return self.view
        return [("ax", i, None) for i in range(len(self.axes))]

    # -- iteration / python protocol
    def __len__(self):
        if not self.axes:
            raise TypeError("len() of unsized object")
        c = self.axes[0].const()
        if c is None:
            raise Unsupported("native len() of a symbolic array")
        return c

    def slen(self):
        if not self.axes:
            raise TypeError("len() of unsized object")
        return scalar_int(self.axes[0].size)

    def __iter__(self):
        if not self.axes:
            raise TypeError("iteration over a 0-d array")
        c = self.axes[0].const()
        if c is None or not self.axes[0].plain:
            raise Unsupported("native iteration over a symbolic array")
        for i in range(c):
            yield self[i]

    def __bool__(self):
        if self.axes and not all(a.is1 for a in self.axes):
            n = self.size
            raise ValueError("The truth value of an array with more than one element is ambiguous.")
        return ctx().fork(as_bool(self.scalar()))

    def __index__(self):
        if self.kind == "f":
            raise TypeError("only integer scalar arrays can be converted to a scalar index")
        v = num(self.scalar())
        if v.p.is_const():
            return int(v.p.cval())
        raise Unsupported("symbolic integer used as a native index")

    def __int__(self):
        v = num(self.scalar())
        if v.p.is_const() and not v.flagged:
            return int(v.p.cval())
        raise Unsupported("int() of a symbolic value")

    def __float__(self):
        v = num(self.scalar())
        if v.p.is_const() and not v.flagged:
            return float(v.p.cval())
        raise Unsupported("float() of a symbolic value")

    def __hash__(self):
        return id(self)

    def __format__(self, spec):
        try:
            return format(float(self), spec)
        except Unsupported:
            pass
        if self.axes:
            return "<symbolic>"
        v = num(self.scalar())
        if not v.flagged:
            x = closed_value(v.p)
            if x is not None:
                return format(x, spec)
        return "<symbolic>"

    def __repr__(self):
        return f"<{type(self).__name__} {self.kind} {self.axes}>"

    # -- operators
    def __add__(self, o): return binop("add", self, o)
    def __radd__(self, o): return binop("add", o, self)
    def __sub__(self, o): return binop("sub", self, o)
    def __rsub__(self, o): return binop("sub", o, self)
    def __mul__(self, o): return binop("mul", self, o)
    def __rmul__(self, o): return binop("mul", o, self)
    def __truediv__(self, o): return binop("div", self, o)
    def __rtruediv__(self, o): return binop("div", o, self)
    def __floordiv__(self, o): return binop("floordiv", self, o)
    def __rfloordiv__(self, o): return binop("floordiv", o, self)
    def __mod__(self, o): return binop("mod", self, o)
    def __pow__(self, o): return binop("pow", self, o)
    def __rpow__(self, o): return binop("pow", o, self)
    def __lt__(self, o): return binop("lt", self, o)
    def __le__(self, o): return binop("le", self, o)
    def __gt__(self, o): return binop("lt", o, self)
    def __ge__(self, o): return binop("le", o, self)
    def __eq__(self, o): return binop("eq", self, o)
    def __ne__(self, o): return binop("ne", self, o)
    def __and__(self, o): return binop("and", self, o)
    def __rand__(self, o): return binop("and", o, self)
    def __or__(self, o): return binop("or", self, o)
    def __ror__(self, o): return binop("or", o, self)
    def __xor__(self, o): return binop("xor", self, o)
    def __matmul__(self, o):
        from .npshim import matmul
        return matmul(self, o)

    def __rmatmul__(self, o):
        from .npshim import matmul
        return matmul(o, self)

    def __neg__(self):
        return unary(self, lambda x: n_neg(num(x)), "f" if self.kind == "f" else "i")

    def __pos__(self):
        return self

    def __abs__(self):
        return unary(self, n_abs, self.kind)

    def __invert__(self):
        if self.kind == "b":
            return unary(self, lambda b: Not(b), "b")
        return unary(self, lambda x: n_sub(num(-1), num(x)), "i")

    def _inplace(self, op, o):
        r = binop(op, self, o)
        if self.kind == "i" and r.kind == "f":
            raise TypeError(f"Cannot cast ufunc '{op}' output from float to int")
        if len(r.axes) != len(self.axes):
            raise ValueError("non-broadcastable output operand")
        self._assign_all(r)
        return self

    def __iadd__(self, o): return self._inplace("add", o)
    def __isub__(self, o): return self._inplace("sub", o)
    def __imul__(self, o): return self._inplace("mul", o)
    def __itruediv__(self, o): return self._inplace("div", o)
    def __ipow__(self, o): return self._inplace("pow", o)
    def __iand__(self, o): return self._inplace("and", o)
    def __ior__(self, o): return self._inplace("or", o)

    def _assign_all(self, value):
        self[...] = value

    # -- indexing
    def __getitem__(self, ix):
        return getitem(self, ix)

    def __setitem__(self, ix, v):
        setitem(self, ix, v)

    # -- methods
    def copy(self, *a, **k):
        return self._like(self.axes, self.reader())

    def transpose(self, *axes):
        n = len(self.axes)
        if not axes:
            perm = list(range(n))[::-1]
        else:
            perm = list(axes[0] if len(axes) == 1 and isinstance(axes[0], (tuple, list)) else axes)
            perm = [p % n for p in perm]
        inv = {p: i for i, p in enumerate(perm)}
        view = [(k, inv[a], o) if k == "ax" else (k, a, o) for k, a, o in self._vmap()]
        return self.with_view([self.axes[p] for p in perm], view)

    def swapaxes(self, a, b):
        n = len(self.axes)
        perm = list(range(n))
        a, b = a % n, b % n
        perm[a], perm[b] = perm[b], perm[a]
        return self.transpose(*perm)

    def squeeze(self, axis=None):
        drop = []
        for i, a in enumerate(self.axes):
            if axis is not None:
                axs = axis if isinstance(axis, tuple) else (axis,)
                if i in [x % len(self.axes) for x in axs]:
                    if not a.is1:
                        if a.const() is None and ctx().fork(Eq(a.size, 1)):
                            pass
                        else:
                            raise ValueError("cannot select an axis to squeeze out which has size not equal to one")
                    drop.append(i)
            elif a.is1:
                drop.append(i)
            elif a.const() is None:
                if ctx().fork(Eq(a.size, 1)):
                    drop.append(i)
        ix = tuple(0 if i in drop else slice(None) for i in range(len(self.axes)))
        return self[ix] if ix else self

    def astype(self, dtype, copy=True):
        from .npshim import dtype_kind
        k = dtype_kind(dtype)
        rd = self.reader()
        if k == self.kind:
            return self.copy()
        if k == "b":
            return self._like(self.axes, lambda i: as_bool(rd(i)), "b")
        if k == "i" and self.kind == "f":
            return self._like(self.axes, lambda i: n_trunc(rd(i)), "i")
        return self._like(self.axes, lambda i: num(rd(i)), k)

    def reshape(self, *shape, **kw):
        from . import npshim
        if len(shape) == 1 and isinstance(shape[0], (tuple, list, SShape)):
            shape = tuple(shape[0])
        return npshim.reshape(self, shape)

    def ravel(self, *a):
        return self.reshape(-1)

    flatten = ravel

    def item(self, *a):
        if a:
            return self[tuple(a)]
        return self.reshape(()) if self.axes else self

    def tolist(self):
        if not self.axes:
            return self
        return [x.tolist() if x.axes else x for x in self]

    def _np(self, name, *a, **k):
        from . import npshim
        return getattr(npshim, name)(self, *a, **k)

    def sum(self, *a, **k): return self._np("sum", *a, **k)
    def cumsum(self, *a, **k): return self._np("cumsum", *a, **k)
    def mean(self, *a, **k): return self._np("mean", *a, **k)
    def max(self, *a, **k): return self._np("max", *a, **k)
    def min(self, *a, **k): return self._np("min", *a, **k)
    def all(self, *a, **k): return self._np("all", *a, **k)
    def any(self, *a, **k): return self._np("any", *a, **k)
    def argmin(self, *a, **k): return self._np("argmin", *a, **k)
    def argmax(self, *a, **k): return self._np("argmax", *a, **k)
    def clip(self, *a, **k): return self._np("clip", *a, **k)
    def dot(self, *a, **k): return self._np("dot", *a, **k)
    def nonzero(self): return self._np("nonzero")
    def prod(self, *a, **k): return self._np("prod", *a, **k)

    def fill(self, v):
        self[...] = v


class SDtype:
    def __init__(self, kind):
        self.kind = kind

    def __eq__(self, o):
        from .npshim import dtype_kind
        return self.kind == dtype_kind(o)

    def __hash__(self):
        return hash(self.kind)


class SShape(tuple):
    """shape tuple whose comparison with another shape is symbolic"""

    def __eq__(self, o):
        if not isinstance(o, tuple) or len(o) != len(self):
            return False
        for a, b in zip(self, o):
            if not (a == b):
                return False
        return True

    def __ne__(self, o):
        return not self.__eq__(o)

    def __getitem__(self, i):
        r = tuple.__getitem__(self, i)
        return SShape(r) if isinstance(i, slice) else r

    def __add__(self, o):
        return SShape(tuple.__add__(self, tuple(o)))

    __hash__ = tuple.__hash__


def dim_value(a):
    c = a.const()
    if c is not None:
        return c
    r = scalar_int(a.size)
    r.axis_ = a
    return r


def scalar_int(p):
    if isinstance(p, Poly) and p.is_const():
        return int(p.cval())
    return IntScalar(p)


class IntScalar(Arr):
    """symbolic integer"""

    axis_ = None

    def __init__(self, p):
        n = Num(P(p), int=True)
        Arr.__init__(self, (), lambda i: n, "i")

    @classmethod
    def make(cls, proto, axes, fn, kind):
        return Arr(axes, fn, kind)

    def with_view(self, axes, view):
        return Arr(axes, buf=self.buf, view=view)


def arr0(e, kind=None):
    if kind is None:
        kind = "b" if isinstance(e, B) else ("i" if isinstance(e, Num) and e.int else "f" if isinstance(e, Num) else "O")
    return Arr((), lambda i: e, kind)


def map_view(view, idx):
    out = []
    for k, a, o in view:
        if k == "fix":
            out.append(a)
        elif o is None:
            out.append(idx[a])
        else:
            out.append((idx[a][0] + o,))
    return tuple(out)


def n_trunc(x):
    x = num(x)
    if x.int:
        return x
    if x.p.is_const():
        return num(int(x.p.cval()))
    return Num(ite(Lt(x.p, 0), -floor_term(-x.p), floor_term(x.p)), int=True)


CLOSED = {"pi": lambda: math.pi}


def closed_value(p):
    """numerical value of a term without unknowns, None if there are any (only for messages and names)"""
    tot = 0.0
    for mo, c in p.m.items():
        t = float(c)
        for a, e in mo:
            f = CLOSED.get(a.fn.name) if a.kind == "app" else CLOSED.get(getattr(a, "name", None))
            if f is None or (a.kind == "app" and a.fn.agg is not None):
                return None
            xs = [closed_value(q) for q in a.args] if a.kind == "app" else []
            if any(x is None for x in xs):
                return None
            t *= f(*xs) ** float(e)
        tot += t
    return tot


def asarr(x):
    if isinstance(x, Arr):
        return x
    if isinstance(x, (int, float, Fraction, bool, Poly, Num, B)):
        e = x if isinstance(x, (Num, B)) else (BC(x) if isinstance(x, bool) else num(x))
        return arr0(e)
    if isinstance(x, (list, tuple)):
        return from_list(x)
    if hasattr(x, "as_arr"):
        return x.as_arr()
    if isinstance(x, str) or type(x).__name__ == "SymStr":
        return arr0(x, "s")
    from . import npreal
    r = npreal.convert(x)
    if r is not None:
        return r
    raise Unsupported(f"cannot convert {type(x).__name__} to an array")


def from_list(xs):
    if hasattr(xs, "as_arr"):
        return xs.as_arr()
    elts = [asarr(x) for x in xs]
    if not elts:
        return Arr((ax(0),), lambda i: num(0.0), "f")
    nd = elts[0].ndim
    if any(e.ndim != nd for e in elts):
        raise ValueError("inhomogeneous shape")
    axes = list(elts[0].axes)
    for e in elts[1:]:
        for i, a in enumerate(e.axes):
            if axes_equal(axes[i], a) is not True:
                if not ctx().fork(Eq(axes[i].size, a.size)):
                    raise ValueError("inhomogeneous shape")
    kind = result_kind(*[e.kind for e in elts])
    rds = [e.reader() for e in elts]
    proto = next((e for e in elts if type(e) is not Arr and type(e) is not IntScalar), None)
    if proto is not None:
        from .units import list_quantity
        rds = list_quantity(elts, proto)

    def fn(idx):
        k = idx[0][0]
        if k.is_const():
            return conv(rds[int(k.cval())](idx[1:]), kind)
        r = conv(rds[-1](idx[1:]), kind)
        for j in range(len(rds) - 2, -1, -1):
            r = e_ite(Eq(k, j), conv(rds[j](idx[1:]), kind), r)
        return r
    r_axes = (ax(len(elts)),) + tuple(axes)
    if proto is not None:
        return proto._like(r_axes, fn, kind)
    return Arr(r_axes, fn, kind)


def conv(e, kind):
    if kind in "fi" and isinstance(e, B):
        return num(e)
    return e


def result_kind(*ks):
    if "O" in ks:
        return "O"
    if "s" in ks:
        return "s"
    for k in "fib":
        if k in ks:
            return k
    return "f"


def broadcast(axes_list):
    n = max(len(a) for a in axes_list)
    out = []
    for i in range(n):
        cur = AX1
        for a in axes_list:
            j = i - (n - len(a))
            if j >= 0:
                cur = unify_axis(cur, a[j])
        out.append(cur)
    return tuple(out)


def bc_reader(arr, out_axes):
    """reader of arr broadcast to out_axes"""
    rd = arr.reader()
    return bc_fn(rd, arr.axes, out_axes)


def bc_fn(rd, axes, out_axes):
    off = len(out_axes) - len(axes)
    ones = [a.is1 and not out_axes[off + i].is1 for i, a in enumerate(axes)]
    zeros = [tuple(ZERO for _ in a.base) for a in axes]
    # an axis equal in size to the output axis but of symbolic length one
    sym1 = []
    for i, a in enumerate(axes):
        o = out_axes[off + i]
        s = False
        if not a.is1 and a is not o and a.plain and o.plain and a.size != o.size:
            # forked as length one in unify_axis
            if Eq(a.size, 1) in ctx().pc:
                s = True
        sym1.append(s)
    if off == 0 and not any(ones) and not any(sym1):
        return rd

    def f(idx):
        return rd(tuple(zeros[i] if ones[i] or sym1[i] else idx[off + i] for i in range(len(axes))))
    return f


def unary(x, f, kind=None):
    x = asarr(x)
    rd = x.reader()
    return x._like(x.axes, lambda i: f(rd(i)), kind or x.kind)


OPS = {
    "add": (n_add, None), "sub": (n_sub, None), "mul": (n_mul, None), "div": (n_div, "f"), "pow": (n_pow, None),
    "lt": (n_lt, "b"), "le": (n_le, "b"), "eq": (n_eq, "b"), "ne": (lambda a, b: Not(n_eq(a, b)), "b"),
}


def n_floordiv(a, b):
    q = n_div(a, b)
    r = n_floor(q)
    r.int = a.int and b.int
    return r


def n_mod(a, b):
    return n_sub(a, n_mul(n_floordiv(a, b), b))


OPS["floordiv"] = (n_floordiv, None)
OPS["mod"] = (n_mod, None)


def raw_binop(op, x, y):
    """elementwise operation without units"""
    axes = broadcast([x.axes, y.axes])
    rx, ry = bc_reader(x, axes), bc_reader(y, axes)
    if op in ("and", "or", "xor"):
        if x.kind != "b" or y.kind != "b":
            if x.kind == "f" or y.kind == "f":
                raise TypeError("ufunc 'bitwise' not supported for the input types")
            raise Unsupported("bitwise operation on integers")
        f = {"and": And, "or": Or, "xor": lambda a, b: Not(Iff(a, b))}[op]
        return axes, (lambda i: f(rx(i), ry(i))), "b"
    if op in ("eq", "ne") and (x.kind in "sO" or y.kind in "sO"):
        def fe(i):
            r = opaque_eq(rx(i), ry(i))
            return r if op == "eq" else Not(r)
        return axes, fe, "b"
    f, k = OPS[op]
    if x.kind == "b" and y.kind == "b" and op == "sub":
        raise TypeError("numpy boolean subtract")
    kind = k or ("f" if "f" in (x.kind, y.kind) else "i")
    return axes, (lambda i: f(num(rx(i)), num(ry(i)))), kind


def opaque_eq(a, b):
    if isinstance(a, Choice):
        return Or(*[And(c, opaque_eq(v, b)) for c, v in a.alts])
    if isinstance(b, Choice):
        return Or(*[And(c, opaque_eq(a, v)) for c, v in b.alts])
    if hasattr(a, "sym_eq"):
        return a.sym_eq(b)
    if hasattr(b, "sym_eq"):
        return b.sym_eq(a)
    return BC(a == b)


def binop(op, x, y):
    from .units import Quantity, UnitBase, quantity_binop
    if isinstance(x, UnitBase) or isinstance(y, UnitBase) or isinstance(x, Quantity) or isinstance(y, Quantity):
        return quantity_binop(op, x, y)
    try:
        x, y = asarr(x), asarr(y)
    except Unsupported:
        if op == "eq":
            return False
        if op == "ne":
            return True
        if x is None or y is None or isinstance(x, str) or isinstance(y, str):
            raise TypeError(f"unsupported operand types for {op}")
        raise
    if op not in ("eq", "ne") and ("s" in (x.kind, y.kind) or "O" in (x.kind, y.kind)):
        raise TypeError(f"unsupported operand types for {op}")
    axes, fn, kind = raw_binop(op, x, y)
    return Arr(axes, fn, kind)


# ------------------------------------------------------------------ indexing
def _expand_ix(arr, ix):
    if not isinstance(ix, tuple):
        ix = (ix,)
    ix = list(ix)
    n_el = sum(1 for i in ix if i is Ellipsis)
    used = 0
    for i in ix:
        if i is None or i is Ellipsis:
            continue
        if isinstance(i, Arr) and i.kind == "b":
            used += max(i.ndim, 0)
        elif isinstance(i, (list,)) and i and isinstance(i[0], bool):
            used += 1
        else:
            used += 1
    rest = len(arr.axes) - used
    if rest < 0:
        raise IndexError("too many indices for array")
    if n_el == 0:
        ix = ix + [Ellipsis]
    out = []
    for i in ix:
        if i is Ellipsis:
            out += [slice(None)] * rest
        else:
            out.append(i)
    return out


def int_term(x):
    """integer index as a term"""
    if isinstance(x, bool):
        raise Unsupported("boolean scalar index")
    if isinstance(x, int):
        return P(x)
    if isinstance(x, Poly):
        return x
    if isinstance(x, Num):
        return x.p
    if isinstance(x, Arr) and all(a.is1 for a in x.axes):
        if x.kind == "f":
            raise IndexError("only integers, slices, ellipsis and integer or boolean arrays are valid indices")
        return num(x.scalar()).p
    if hasattr(x, "__index__"):
        return P(x.__index__())
    raise Unsupported(f"index of type {type(x).__name__}")


def norm_index(t, n, what="index"):
    """python index semantics: negative indices count from the end; bounds obligation"""
    if t.is_const():
        if t.cval() < 0:
            t = t + n
    else:
        if split_ind(t) is None:
            neg = Lt(t, 0)
            if neg is not FALSE and not ctx().entails(Not(neg)):
                if ctx().entails(neg):
                    t = t + n
                else:
                    t = ite(neg, t + n, t)
        else:
            t = ite(Lt(t, 0), t + n, t) if not ctx().entails(Le(0, t)) else t
    inb = And(Le(0, t), Lt(t, n))
    if inb is not TRUE and not ctx().entails(inb):
        if not ctx().spec_mode:
            if not ctx().fork(inb):
                raise IndexError("index out of bounds")
    return t


def slice_bounds(s, n):
    """offset and length of a unit-step slice over an axis of length n"""
    if s.step is not None and not (isinstance(s.step, int) and s.step == 1):
        raise Unsupported("slice with a step")

    def pos(x, default):
        if x is None:
            return default
        t = int_term(x)
        if t.is_const():
            if t.cval() < 0:
                t = t + n
                # may underflow for short axes
                c = Lt(t, 0)
                if c is not FALSE and not ctx().entails(Not(c)):
                    if ctx().fork(c):
                        return ZERO
                return t
            c = Le(t, n)
            if c is TRUE or ctx().entails(c):
                return t
            if ctx().fork(c):
                return t
            return n
        if ctx().entails(And(Le(0, t), Le(t, n))):
            return t
        neg = Lt(t, 0)
        if neg is not FALSE and ctx().fork(neg):
            t = t + n
            if ctx().fork(Lt(t, 0)):
                return ZERO
            return t
        if ctx().fork(Le(t, n)):
            return t
        return n
    a = pos(s.start, ZERO)
    b = pos(s.stop, n)
    ln = b - a
    if ln.is_const() and ln.cval() < 0:
        return a, ZERO
    c = Le(0, ln)
    if c is not TRUE and not ctx().entails(c):
        if not ctx().fork(c):
            return a, ZERO
    return a, ln


def getitem(arr, ix):
    items = _expand_ix(arr, ix)
    simple = all(i is None or isinstance(i, slice) or (isinstance(i, int) and not isinstance(i, bool))
                 or (isinstance(i, Arr) and i.kind == "i" and not i.axes) for i in items)
    if simple:
        return simple_view(arr, items)
    return advanced_get(arr, items)


def simple_view(arr, items):
    out_axes = []
    # per array axis: ('fix', pt) or ('ax', outpos, offset)
    amap = []
    k = 0
    for i in items:
        if i is None:
            out_axes.append(AX1)
            continue
        a = arr.axes[k]
        if isinstance(i, slice):
            if i.start is None and i.stop is None and (i.step is None or i.step == 1):
                amap.append(("ax", len(out_axes), None))
                out_axes.append(a)
            elif isinstance(i.step, int) and i.step == -1 and i.start is None and i.stop is None:
                return reverse_axis(arr, items, k)
            else:
                if not a.plain:
                    raise Unsupported("slicing a masked or flattened axis")
                off, ln = slice_bounds(i, a.base[0])
                amap.append(("ax", len(out_axes), off if off.m else None))
                out_axes.append(Axis((ln,)))
        else:
            if not a.plain:
                t = end_of_masked(a, i)
            else:
                t = norm_index(int_term(i), a.base[0])
            amap.append(("fix", (t,), None))
        k += 1
    view = []
    for kd, a, o in arr._vmap():
        if kd == "fix":
            view.append((kd, a, o))
        else:
            kd2, a2, o2 = amap[a]
            if kd2 == "fix":
                view.append(("fix", (a2[0] + o,) if o is not None else a2, None))
            else:
                oo = o2 if o is None else (o if o2 is None else o + o2)
                view.append(("ax", a2, oo))
    return arr.with_view(out_axes, view)


def end_of_masked(a, i):
    """index of the first / last selected element"""
    t = int_term(i)
    if len(a.base) != 1 or not (t.is_const() and t.cval() in (0, -1)):
        raise Unsupported("position index into a masked or flattened axis")
    n = a.base[0]
    if ctx().fork(L.ball([n], lambda j: Not(a.cond((j,))))):
        raise IndexError("index out of bounds of an axis with size 0")
    j = L._fresh_box("s", [n])[0]
    return Poly.atom(L.agg("argmin", (j.atoms()[0],), (n,), a.cond((j,)), (ZERO if t.cval() == 0 else -j, FALSE, FALSE), sort="I"))


def reverse_axis(arr, items, k):
    if any(not (isinstance(i, slice) or i is None) for i in items):
        raise Unsupported("reversed slice mixed with indices")
    rd = arr.reader()
    n = arr.axes[k].base[0]
    res = arr._like(arr.axes, lambda idx: rd(tuple((n - 1 - pt[0],) if j == k else pt for j, pt in enumerate(idx))))
    rest = [slice(None) if j == k and isinstance(i, slice) else i for j, i in enumerate(items)]
    return res[tuple(rest)] if any(i is None for i in rest) else res


def _point(t, axis):
    """turn the value of an index array into a point on axis"""
    if axis.plain:
        return (t,)
    raise Unsupported("fancy index into a masked axis")


def mask_axis(mask, arr_axes):
    """axis selecting the True entries of a boolean array"""
    rd = mask.reader()
    base, gs = [], []
    for a in mask.axes:
        base += list(a.base)
    sizes = [len(a.base) for a in mask.axes]

    def guard(*pt):
        idx, k = [], 0
        conds = []
        for a, s in zip(mask.axes, sizes):
            p = tuple(pt[k:k + s])
            conds.append(a.cond(p))
            idx.append(p)
            k += s
        return And(*conds, as_bool(rd(tuple(idx))))
    return Axis(base, guard), sizes


def advanced_get(arr, items):
    """boolean masks and integer arrays (mixed with slices / ints / newaxis)"""
    items = [from_list(i) if isinstance(i, list) else i for i in items]
    items = [asarr(i) if not (i is None or isinstance(i, (slice, int))) else i for i in items]
    nadv = [i for i in items if isinstance(i, Arr)]
    masks = [i for i in nadv if i.kind == "b"]
    fancy = [i for i in nadv if i.kind != "b"]
    if masks and fancy:
        raise Unsupported("mask mixed with integer arrays")
    if len(masks) > 1:
        raise Unsupported("several masks")
    rd = arr.reader()
    if masks:
        m = masks[0]
        if m.ndim == 0:
            raise Unsupported("scalar mask")
        out_axes, comp, k = [], [], 0
        for i in items:
            if i is None:
                out_axes.append(AX1)
            elif isinstance(i, slice):
                if i != slice(None):
                    raise Unsupported("mask mixed with slices")
                comp.append(("ax", len(out_axes)))
                out_axes.append(arr.axes[k])
                k += 1
            elif isinstance(i, int):
                t = norm_index(P(i), arr.axes[k].base[0])
                comp.append(("fix", (t,)))
                k += 1
            else:
                # the mask's axes must match
                sub = arr.axes[k:k + m.ndim]
                mm = m
                for x, y in zip(sub, m.axes):
                    if axes_equal(x, y) is not True:
                        if x.plain and y.plain and ctx().entails(Eq(x.size, y.size)):
                            continue
                        if x.plain and y.plain:
                            if ctx().fork(Eq(x.size, y.size)):
                                continue
                            raise IndexError("boolean index did not match indexed array")
                        raise Unsupported("mask over a different selection")
                axm, sizes = mask_axis(m, sub)
                pos = len(out_axes)
                s0 = 0
                for a, s in zip(sub, sizes):
                    comp.append(("part", pos, s0, s))
                    s0 += s
                out_axes.append(axm)
                k += m.ndim

        def fn(idx):
            b = []
            for c in comp:
                if c[0] == "ax":
                    b.append(idx[c[1]])
                elif c[0] == "fix":
                    b.append(c[1])
                else:
                    b.append(tuple(idx[c[1]][c[2]:c[2] + c[3]]))
            return rd(tuple(b))
        r = arr._like(out_axes, fn)
        return r
    # integer arrays
    baxes = broadcast([f.axes for f in fancy])
    frd = [bc_reader(f, baxes) for f in fancy]
    # position of the broadcast axes: at the first advanced index if contiguous, else front
    posn = [j for j, i in enumerate(items) if isinstance(i, Arr) or isinstance(i, int)]
    contiguous = posn == list(range(posn[0], posn[-1] + 1))
    out_axes, comp, k, fi = [], [], 0, 0
    placed = False
    if not contiguous:
        out_axes += list(baxes)
        start = 0
        placed = True
    checks = []
    for i in items:
        if i is None:
            out_axes.append(AX1)
            continue
        a = arr.axes[k]
        if isinstance(i, slice):
            if i != slice(None):
                off, ln = slice_bounds(i, a.base[0])
                comp.append(("axo", len(out_axes), off))
                out_axes.append(Axis((ln,)))
            else:
                comp.append(("ax", len(out_axes)))
                out_axes.append(a)
        elif isinstance(i, int):
            comp.append(("fix", (norm_index(P(i), a.base[0]),)))
        else:
            if not placed:
                start = len(out_axes)
                out_axes += list(baxes)
                placed = True
            comp.append(("fancy", fi, a))
            checks.append((fi, a))
            fi += 1
        k += 1
    nb = len(baxes)
    # bounds for every entry
    for f, a in checks:
        if not a.plain:
            raise Unsupported("fancy index into a masked axis")
        n = a.base[0]
        vs = [x.vars("f") for x in baxes]
        g = And(*[x.cond(v) for x, v in zip(baxes, vs)])
        t = num(frd[f](tuple(vs)))
        rng = And(*[And(Le(0, v), Lt(v, d)) for x, pt in zip(baxes, vs) for v, d in zip(pt, x.base)])
        cond = Implies(And(g, rng), And(Le(-n, t.p), Lt(t.p, n)))
        if not ctx().entails(cond, 3000) and not ctx().spec_mode:
            inb = L.ball([d for x in baxes for d in x.base], lambda *z: subst(Implies(g, And(Le(-n, t.p), Lt(t.p, n))),
                         {v.atoms()[0]: q for v, q in zip([v for pt in vs for v in pt], z)}))
            if not ctx().fork(inb):
                raise IndexError("index out of bounds")

    def fn(idx):
        bi = tuple(idx[start:start + nb])
        b = []
        for c in comp:
            if c[0] == "ax":
                b.append(idx[c[1]])
            elif c[0] == "axo":
                b.append((idx[c[1]][0] + c[2],))
            elif c[0] == "fix":
                b.append(c[1])
            else:
                t = num(frd[c[1]](bi)).p
                n = c[2].base[0]
                if t.is_const():
                    if t.cval() < 0:
                        t = t + n
                else:
                    neg = Lt(t, 0)
                    g = And(*[x.cond(v) for x, v in zip(baxes, bi)])
                    ctx().assume_stack.append(g)
                    try:
                        if neg is not FALSE and not ctx().entails(Not(neg)):
                            t = ite(neg, t + n, t)
                    finally:
                        ctx().assume_stack.pop()
                b.append((t,))
        return read_at(rd, tuple(b))
    return arr._like(out_axes, fn)


def read_at(rd, idx):
    """read with indices that may contain indicators (conditional positions)"""
    for j, pt in enumerate(idx):
        for q, t in enumerate(pt):
            if split_ind(t) is not None:
                r = None
                for c, p in reversed(cases(t)):
                    npt = pt[:q] + (p,) + pt[q + 1:]
                    v = read_at(rd, idx[:j] + (npt,) + idx[j + 1:])
                    r = v if r is None else e_ite(c, v, r)
                return r
    return rd(idx)


def setitem(arr, ix, value):
    items = _expand_ix(arr, ix)
    items = [from_list(i) if isinstance(i, list) else i for i in items]
    value = arr._coerce_value(value) if hasattr(arr, "_coerce_value") else asarr(value)
    if getattr(value, "unit_", None) is not None and not hasattr(arr, "_coerce_value"):
        # numpy copies the raw values of any array; a single element goes through float()
        if len(items) == arr.ndim and all(isinstance(i, (int, Poly)) and not isinstance(i, bool) or isinstance(i, Arr) and i.kind == "i" and not i.axes for i in items):
            value = arr0(num(value.__float__()), "f") if not isinstance(value.__float__(), Arr) else value.__float__()
        else:
            value = Arr(value.axes, value.reader(), value.kind)
    if arr.kind == "i" and value.kind == "f":
        # numpy truncates silently
        vr0 = value
        value = value.astype(int) if type(value) is Arr or isinstance(value, IntScalar) else vr0
        s = num(vr0.reader()(tuple(a.vars() for a in vr0.axes)))
        if s.flagged:
            raise Unsupported("non-finite value stored in an integer array")
    if arr.kind == "b" and value.kind != "b":
        value = value.astype(bool)
    adv = [i for i in items if isinstance(i, Arr) and not (i.kind == "i" and not i.axes)]
    if not adv:
        sub = simple_view(arr, items)
        axes = sub.axes
        _check_bc(value, axes)
        rv = bc_reader(value, axes)
        view = sub._vmap()

        def inv(b):
            """buffer index -> (condition, index in sub)"""
            conds = []
            idx = [tuple(ZERO for _ in a.base) for a in axes]
            for (kd, a, o), pt in zip(view, b):
                if kd == "fix":
                    for x, y in zip(a, pt):
                        conds.append(Eq(y, x))
                else:
                    t = pt if o is None else (pt[0] - o,)
                    idx[a] = t
                    if o is not None or True:
                        full = o is None and axes_same(axes[a], arr.buf.axes[view.index((kd, a, o))])
                        if not full:
                            conds += [Le(0, t[0]), Lt(t[0], axes[a].base[0])]
            return And(*conds), tuple(idx)
        memo = {}

        def cond(b):
            return inv(b)[0]

        def val(b):
            return conv(rv(inv(b)[1]), arr.kind)
        arr.buf.write(cond, val)
        return
    masks = [i for i in adv if i.kind == "b"]
    if len(adv) == 1 and masks:
        m = masks[0]
        comp, k, out_axes = [], 0, []
        mk = None
        for i in items:
            if i is None:
                raise Unsupported("newaxis in masked assignment")
            if isinstance(i, slice):
                if i != slice(None):
                    raise Unsupported("mask mixed with slices")
                comp.append(("ax", len(out_axes)))
                out_axes.append(arr.axes[k])
                k += 1
            elif isinstance(i, int) or (isinstance(i, Arr) and i.kind == "i"):
                t = norm_index(int_term(i), arr.axes[k].base[0])
                comp.append(("fix", (t,)))
                k += 1
            else:
                sub = arr.axes[k:k + m.ndim]
                for x, y in zip(sub, m.axes):
                    if axes_equal(x, y) is not True:
                        if x.plain and y.plain and ctx().fork(Eq(x.size, y.size)):
                            continue
                        if x.plain and y.plain:
                            raise IndexError("boolean index did not match indexed array")
                        raise Unsupported("mask over a different selection")
                axm, sizes = mask_axis(m, sub)
                mk = (k, m.ndim, len(out_axes), sizes)
                for _ in sub:
                    comp.append(("mask",))
                out_axes.append(axm)
                k += m.ndim
        value = one_each(value, out_axes)
        _check_bc(value, out_axes)
        rv = bc_reader(value, out_axes)
        mrd = m.reader()
        vm = arr._vmap()

        def inv(b):
            conds = []
            a_idx = [None] * len(arr.axes)
            for (kd, a, o), pt in zip(vm, b):
                if kd == "fix":
                    conds += [Eq(y, x) for x, y in zip(a, pt)]
                else:
                    a_idx[a] = pt if o is None else (pt[0] - o,)
                    if o is not None:
                        conds += [Le(0, a_idx[a][0]), Lt(a_idx[a][0], arr.axes[a].base[0])]
            for j in range(len(arr.axes)):
                if a_idx[j] is None:
                    a_idx[j] = tuple(ZERO for _ in arr.axes[j].base)
            for j, c in enumerate(comp):
                if c[0] == "fix":
                    conds += [Eq(y, x) for x, y in zip(c[1], a_idx[j])]
            mi = tuple(a_idx[mk[0]:mk[0] + mk[1]])
            conds.append(as_bool(mrd(mi)))
            out = [None] * len(out_axes)
            for j, c in enumerate(comp):
                if c[0] == "ax":
                    out[c[1]] = a_idx[j]
            out[mk[2]] = tuple(t for pt in mi for t in pt)
            return And(*conds), tuple(out)

        def val(b):
            c, o = inv(b)
            ctx().assume_stack.append(c)
            try:
                return conv(rv(o), arr.kind)
            finally:
                ctx().assume_stack.pop()
        arr.buf.write(lambda b: inv(b)[0], val)
        return
    # integer array assignment with one index array on one axis: x[idx] = v
    if len(adv) == 1 and len(arr.axes) == 1 and len(items) == 1:
        f = adv[0]
        if value.axes and not all(a.is1 for a in value.axes):
            raise Unsupported("scatter of an array value")
        frd = f.reader()
        n = arr.axes[0].base[0]
        vv = value.scalar()
        vm = arr._vmap()
        if len(vm) != 1 or vm[0][2] is not None:
            raise Unsupported("scatter into a view")

        def cond(b):
            t = b[0][0]

            def hit(*z):
                idx, kk = [], 0
                for a in f.axes:
                    idx.append(tuple(z[kk:kk + len(a.base)]))
                    kk += len(a.base)
                i = num(frd(tuple(idx))).p
                return And(*[a.cond(p) for a, p in zip(f.axes, idx)], Or(Eq(i, t), Eq(i + n, t)))
            return L.bany([d for a in f.axes for d in a.base], hit)
        arr.buf.write(cond, lambda b: conv(vv, arr.kind))
        return
    if all(i.kind == "i" for i in adv) and all(len(i.axes) <= 1 for i in adv):
        raise Unsupported("scatter assignment")
    raise Unsupported("assignment with these indices")


def axes_same(a, b):
    return a is b or (a.guard is None and b.guard is None and a.base == b.base)


def one_each(value, axes):
    """value selected over more axes than the target, if it has exactly one element for each of the
    target's: these elements in the order of the target"""
    if len(value.axes) != 1 or len(axes) != 1 or value.axes[0].guard is None or axes[0].guard is None:
        return value
    v, t = value.axes[0], axes[0]
    k = len(t.base)
    if len(v.base) != k + 1 or v.base[:k] != t.base:
        return value
    n = v.base[k]
    pt, z = t.vars("g"), fresh("g")
    count = L.bsum([n], lambda j: ind_poly(v.cond(pt + (j,))))
    if not (ctx().entails(Implies(v.cond(pt + (z,)), t.cond(pt))) and ctx().entails(Implies(t.cond(pt), Eq(count, ONE)), congr=True)):
        return value
    rd = value.reader()

    def at(idx):
        j = fresh("o")
        first = L.agg("argmin", (j.atoms()[0],), (n,), v.cond(idx[0] + (j,)), (ZERO, FALSE, FALSE), sort="I")
        return rd((idx[0] + (Poly.atom(first),),))
    return value._like((t,), at)


def _check_bc(value, axes):
    if len(value.axes) > len(axes):
        extra = value.axes[: len(value.axes) - len(axes)]
        if not all(a.is1 for a in extra):
            raise ValueError("could not broadcast input array")
    off = len(axes) - len(value.axes)
    for i, a in enumerate(value.axes):
        if off + i < 0 or a.is1:
            continue
        o = axes[off + i]
        if axes_equal(a, o) is True:
            continue
        if a.plain and o.plain:
            if ctx().fork(Eq(a.size, o.size)):
                continue
            if ctx().fork(Eq(a.size, 1)):
                continue
            raise ValueError("could not broadcast input array from shape")
        if ctx().fork(Eq(a.size, o.size)):
            raise Unsupported("assignment between different selections")
        raise ValueError("shape mismatch: value array could not be broadcast to indexing result")


def _split_monotone(q):
    """logarithms and powers of products are kept factor by factor; their monotonicity is
    stated for the products that are compared in the query"""
    lns = any(a.kind == "app" and a.fn is LOG for a in q.apps)
    exps = {}
    for a in q.apps:
        if a.kind == "app" and a.fn is PW:
            for e in (a.args[1], a.args[1] + 1):
                exps[e.key] = e
    if not lns and not exps:
        return
    for p in L.comparisons(list(q.facts)):
        if len(p.m) != 2:
            continue
        pos = [(mo, c) for mo, c in p.m.items() if c > 0]
        neg = [(mo, c) for mo, c in p.m.items() if c < 0]
        if len(pos) != 1 or len(neg) != 1:
            continue
        x, y = Poly({pos[0][0]: pos[0][1]}), Poly({neg[0][0]: -neg[0][1]})
        if _single_pos(x) is None or _single_pos(y) is None:
            continue
        known = lambda t: all(a in q.apps for a in t.atoms())
        if lns:
            a, b = t_log(x), t_log(y)
            if known(a) and known(b) and (len(a.m) > 1 or len(b.m) > 1):
                q.add(Iff(Lt(x, y), Lt(a, b)))
                q.add(Iff(Lt(y, x), Lt(b, a)))
        for e in list(exps.values())[:6]:
            a, b = t_pow(x, e), t_pow(y, e)
            if known(a) and known(b) and (len(x.m) > 1 or len(y.m) > 1 or len(next(iter(a.m))) > 1 or len(next(iter(b.m))) > 1):
                q.add(Implies(And(Lt(0, e), Lt(x, y)), Lt(a, b)))
                q.add(Implies(And(Lt(0, e), Lt(y, x)), Lt(b, a)))
                q.add(Implies(And(Lt(e, 0), Lt(x, y)), Lt(b, a)))
                q.add(Implies(And(Lt(e, 0), Lt(y, x)), Lt(a, b)))
                q.add(Or(Lt(x, y), Lt(y, x), Eq(a, b)))


L.CLOSE_HOOKS.append(_split_monotone)
