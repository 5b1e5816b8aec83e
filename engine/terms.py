"""Term language of the verifier.

Real and integer terms are Laurent polynomials (``Poly``) with exact rational
coefficients over interned atoms.  Boolean terms (``B``) are a small interned
AST.  Everything is immutable and hash-consed, so structural equality is
identity of keys.

Atoms
  Var   - a constant of sort 'I' or 'R' (``local`` ones are skolem/bound)
  App   - application of a function symbol ``Fn`` to Poly arguments
  Ind   - indicator of a boolean term (1 if true, 0 if false)
  Den   - a multi-term polynomial used as a denominator (negative exponent only)
"""
from fractions import Fraction
import itertools

_ids = itertools.count()
_atoms = {}


class Unsupported(Exception):
    """The construct is outside what the verifier can express."""


# --------------------------------------------------------------------------
class Fn:
    """Uninterpreted function symbol."""

    __slots__ = ("name", "arity", "sort", "attrs", "axioms", "pair_axioms", "id", "agg")
    _all = {}

    def __init__(self, name, arity, sort="R", axioms=(), pair_axioms=(), agg=None, **attrs):
        self.name = name
        self.arity = arity
        self.sort = sort
        self.attrs = attrs
        self.axioms = list(axioms)
        self.pair_axioms = list(pair_axioms)
        self.agg = agg
        self.id = next(_ids)

    def __repr__(self):
        return f"Fn({self.name})"


class Atom:
    __slots__ = ("kind", "key", "id", "sort", "name", "local", "fn", "args", "b", "poly", "pos", "nonneg", "_fv", "_hi", "isint", "bound")

    def __repr__(self):
        return show_atom(self)

    def __lt__(self, other):
        return self.id < other.id


def _mk(kind, key, **kw):
    k = (kind,) + key
    a = _atoms.get(k)
    if a is None:
        a = Atom()
        a.kind = kind
        a.key = k
        a.id = next(_ids)
        a.name = None
        a.local = False
        a.fn = None
        a.args = ()
        a.b = None
        a.poly = None
        a.pos = False
        a.nonneg = False
        a._fv = None
        a._hi = None
        a.sort = "R"
        a.bound = False
        for n, v in kw.items():
            setattr(a, n, v)
        a.isint = a.sort == "I"
        _atoms[k] = a
    return a


def Var(name, sort="R", local=False, pos=False, nonneg=False):
    return _mk("var", (name, sort), name=name, sort=sort, local=local, pos=pos, nonneg=nonneg or pos)


_fresh = itertools.count(1)


def reset_fresh():
    global _fresh
    _fresh = itertools.count(1)


def fresh(prefix="k", sort="I"):
    return Poly.atom(Var(f"{prefix}!{next(_fresh)}", sort, local=True))


def show_atom(a):
    if a.kind == "var":
        return a.name
    if a.kind == "app":
        if a.fn.agg is not None:
            return a.fn.agg.show(a.args)
        return f"{a.fn.name}({', '.join(map(repr, a.args))})"
    if a.kind == "ind":
        return f"[{a.b!r}]"
    return f"Den({a.poly!r})"


# --------------------------------------------------------------------------
def _mono_mul(m1, m2):
    """merge two monomials (sorted tuples of (atom, exp)), merging indicators"""
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    inds = None
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    inds = [a for a in d if a.kind == "ind"]
    if len(inds) > 1:
        b = And(*[a.b for a in inds])
        for a in inds:
            del d[a]
        if b is FALSE:
            return None
        if b is not TRUE:
            c = ind_poly(b)
            # polarity change would give two terms; caller deals with it
            return ("poly", tuple(sorted(((a, e) for a, e in d.items() if e), key=_mkey)), c)
    elif inds:
        d[inds[0]] = 1
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=_mkey))


def _mkey(t):
    return t[0].id


class Poly:
    __slots__ = ("m", "_key", "_hash", "_atoms")

    def __init__(self, m):
        self.m = m
        self._key = None
        self._hash = None
        self._atoms = None

    # construction ---------------------------------------------------------
    @staticmethod
    def const(c):
        c = Fraction(repr(c)) if isinstance(c, float) else Fraction(c)
        return Poly({(): c} if c else {})

    @staticmethod
    def atom(a, e=1):
        return Poly({((a, e),): Fraction(1)})

    # identity ---------------------------------------------------------------
    @property
    def key(self):
        if self._key is None:
            self._key = tuple(sorted(((tuple((a.id, e) for a, e in mo), c) for mo, c in self.m.items())))
        return self._key

    def __hash__(self):
        if self._hash is None:
            self._hash = hash(self.key)
        return self._hash

    def __eq__(self, o):
        return isinstance(o, Poly) and (self is o or self.m == o.m)

    def is_const(self):
        return not self.m or (len(self.m) == 1 and () in self.m)

    def cval(self):
        return self.m.get((), Fraction(0))

    def is_int(self):
        """sort check: integer valued by construction"""
        for mo, c in self.m.items():
            if c.denominator != 1:
                return False
            for a, e in mo:
                if e < 0 or not (a.isint or a.kind == "ind"):
                    return False
        return True

    def atoms(self):
        if self._atoms is None:
            s = {}
            for mo in self.m:
                for a, _ in mo:
                    s[a] = 1
            self._atoms = tuple(s)
        return self._atoms

    # arithmetic -------------------------------------------------------------
    def __add__(self, o):
        if not isinstance(o, Poly):
            if not isinstance(o, (int, float, Fraction)):
                return NotImplemented
            o = Poly.const(o)
        if not self.m:
            return o
        if not o.m:
            return self
        d = dict(self.m)
        for mo, c in o.m.items():
            s = d.get(mo, 0) + c
            if s:
                d[mo] = s
            else:
                d.pop(mo, None)
        return Poly(d)

    __radd__ = __add__

    def __neg__(self):
        return Poly({mo: -c for mo, c in self.m.items()})

    def __sub__(self, o):
        if not isinstance(o, Poly):
            if not isinstance(o, (int, float, Fraction)):
                return NotImplemented
            o = Poly.const(o)
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if not isinstance(o, Poly):
            if not isinstance(o, (int, float, Fraction)):
                return NotImplemented
            o = Poly.const(o)
        if not self.m or not o.m:
            return ZERO
        d = {}
        extra = []
        for m1, c1 in self.m.items():
            for m2, c2 in o.m.items():
                mo = _mono_mul(m1, m2)
                if mo is None:
                    continue
                c = c1 * c2
                if mo and mo[0] == "poly":
                    extra.append(Poly({mo[1]: c}) * mo[2])
                    continue
                s = d.get(mo, 0) + c
                if s:
                    d[mo] = s
                else:
                    d.pop(mo, None)
        r = Poly(d)
        for x in extra:
            r = r + x
        return expand_dens(r)

    __rmul__ = __mul__

    def __pow__(self, n):
        assert isinstance(n, int)
        if n < 0:
            return recip(self) ** (-n)
        if len(self.m) == 1:
            (mo, c), = self.m.items()
            return Poly({tuple((a, 1 if a.kind == "ind" else e * n) for a, e in mo): c ** n}) if n else ONE
        r = ONE
        for _ in range(n):
            r = r * self
        return r

    def __truediv__(self, o):
        if not isinstance(o, (Poly, int, float, Fraction)):
            return NotImplemented
        if not isinstance(o, Poly):
            return self * Poly.const(Fraction(1) / Fraction(o))
        return self * recip(o)

    def __repr__(self):
        if not self.m:
            return "0"
        out = []
        for mo, c in self.m.items():
            s = "*".join(f"{a!r}" + (f"^{e}" if e != 1 else "") for a, e in mo)
            if not s:
                out.append(str(c))
            elif c == 1:
                out.append(s)
            else:
                out.append(f"{c}*{s}")
        return " + ".join(out)


def expand_dens(p):
    """a Den atom with a positive exponent is expanded back to its polynomial"""
    for mo in p.m:
        for a, e in mo:
            if a.kind == "den" and e > 0:
                break
        else:
            continue
        break
    else:
        return p
    r = ZERO
    for mo, c in p.m.items():
        t = Poly({tuple((a, e) for a, e in mo if not (a.kind == "den" and e > 0)): c})
        for a, e in mo:
            if a.kind == "den" and e > 0:
                for _ in range(e):
                    t = t * a.poly
        r = r + t
    return r


ZERO = Poly({})
ONE = Poly({(): Fraction(1)})


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, (int, Fraction)):
        return Poly.const(x)
    if isinstance(x, float):
        return Poly.const(Fraction(repr(x)))
    raise Unsupported(f"cannot make a term of {type(x)}")


def split_ind(p):
    """yield (ind-atom or None): first indicator atom at the top level"""
    for mo in p.m:
        for a, e in mo:
            if a.kind == "ind":
                return a
    return None


def subst_ind(p, a, val):
    """replace indicator a by 0/1, simplifying the other indicators with a.b = val"""
    r = {}
    extra = ZERO
    for mo, c in p.m.items():
        out = []
        dead = False
        pex = None
        for x, e in mo:
            if x is a:
                if not val:
                    dead = True
                    break
            elif x.kind == "ind":
                nb = assume(x.b, a.b, val)
                if nb is FALSE:
                    dead = True
                    break
                if nb is TRUE:
                    continue
                if nb is x.b:
                    out.append((x, e))
                else:
                    pex = ind_poly(nb)
            else:
                out.append((x, e))
        if dead:
            continue
        k = tuple(out)
        if pex is not None:
            extra = extra + Poly({k: c}) * pex
            continue
        s = r.get(k, 0) + c
        if s:
            r[k] = s
        else:
            r.pop(k, None)
    return Poly(r) + extra


def cases(p, limit=64):
    """expand the top-level indicators: list of (B condition, Poly without indicators)"""
    out = []

    def go(p, cond):
        a = split_ind(p)
        if a is None:
            out.append((cond, p))
            if len(out) > limit:
                raise Unsupported("too many indicator cases")
            return
        c1 = And(cond, a.b)
        if c1 is not FALSE:
            go(subst_ind(p, a, True), c1)
        c0 = And(cond, Not(a.b))
        if c0 is not FALSE:
            go(subst_ind(p, a, False), c0)

    go(p, TRUE)
    return out


def recip(p):
    if not p.m:
        # division by the literal zero: the value is flagged by the caller
        return ZERO
    if split_ind(p) is not None:
        r = ZERO
        for c, q in cases(p):
            if q.m:
                r = r + ind_poly(c) * recip(q)
        return r
    if len(p.m) == 1:
        (mo, c), = p.m.items()
        return Poly({tuple((a, -e) for a, e in mo): 1 / c})
    # factor out the common monomial and the leading coefficient
    g, q = content(p)
    den = _mk("den", (q.key,), poly=q)
    return recip(g) * Poly.atom(den, -1)


def exact_div(p, q, most=400):
    """the polynomial p / q if q divides p without remainder; else None. Needs q != 0"""
    if len(q.m) < 2 or len(p.m) < len(q.m):
        return None
    for m in (p.m, q.m):
        for mo in m:
            for a, e in mo:
                if e < 0 or a.kind in ("ind", "den"):
                    return None
    key = lambda mo: (sum(e for _, e in mo), tuple(sorted(((-a.id, e) for a, e in mo), reverse=True)))
    lead = max(q.m, key=key)
    lc, ld = q.m[lead], dict(lead)
    r, out = dict(p.m), {}
    for _ in range(most):
        if not r:
            return Poly(out)
        mo = max(r, key=key)
        d = dict(mo)
        for a, e in ld.items():
            if d.get(a, 0) < e:
                return None
            d[a] -= e
        t = Poly({tuple(sorted(((a, e) for a, e in d.items() if e), key=_mkey)): r[mo] / lc})
        (k, c), = t.m.items()
        if k in out:
            return None
        out[k] = c
        r = dict((Poly(r) - t * q).m)
    return None


def divide_out(p, q):
    """p / q if q divides p; indicators, denominators and negative powers that are not in q are
    treated like other variables.  Needs q != 0"""
    if len(q.m) < 2 or len(p.m) < len(q.m):
        return None
    inq = {a for mo in q.m for a, e in mo}
    to, back = {}, {}
    for mo in p.m:
        for a, e in mo:
            if (e < 0 or a.kind in ("ind", "den")) and a not in to:
                if a in inq:
                    return None
                to[a] = v = Var(f"proxy {a.id}", "R", local=True)
                back[v] = a
    if not to:
        return exact_div(p, q)
    r = ZERO
    neg = {}
    for mo, c in p.m.items():
        for a, e in mo:
            if a in to and neg.setdefault(a, e < 0) != (e < 0):
                return None
        r = r + Poly({tuple(sorted(((to[a], abs(e)) if a in to else (a, e) for a, e in mo), key=_mkey)): c})
    d = exact_div(r, q)
    if d is None:
        return None
    return Poly({tuple(sorted(((back[a], -e if neg[back[a]] else e) if a in back else (a, e) for a, e in mo), key=_mkey)): c for mo, c in d.m.items()})


def content(p):
    """p = g*q with g a monomial (coefficient included), q primitive and canonical"""
    monos = list(p.m)
    common = None
    for mo in monos:
        d = dict(mo)
        if common is None:
            common = dict(d)
        else:
            for a in set(common) | set(d):
                e = min(common.get(a, 0), d.get(a, 0))
                if e:
                    common[a] = e
                else:
                    common.pop(a, None)
    common = {a: e for a, e in common.items() if a.kind != "ind"}
    lead = min(p.m.items(), key=lambda t: tuple((a.id, e) for a, e in t[0]))[1]
    g = {tuple(sorted(common.items(), key=_mkey)): lead}
    q = {}
    for mo, c in p.m.items():
        d = dict(mo)
        for a, e in common.items():
            d[a] = d.get(a, 0) - e
        k = tuple(sorted(((a, e) for a, e in d.items() if e), key=_mkey))
        q[k] = c / lead
    return Poly(g), Poly(q)


def atom_pos(a):
    if a.pos:
        return True
    if a.kind == "app":
        if a.fn.attrs.get("pos"):
            return True
    if a.kind == "den":
        return poly_pos(a.poly)
    return False


def atom_nonneg(a):
    return a.nonneg or a.kind == "ind" or atom_pos(a) or (a.kind == "app" and a.fn.attrs.get("nonneg", False))


def poly_nonneg(p):
    return all(c > 0 and all(atom_nonneg(a) and (e > 0 or True) or e % 2 == 0 for a, e in mo) for mo, c in p.m.items())


def poly_pos(p):
    """syntactic positivity"""
    if not p.m or not poly_nonneg(p):
        return False
    return any(all(atom_pos(a) for a, e in mo) for mo, c in p.m.items())


def app(fn, *args):
    args = tuple(P(a) for a in args)
    # lift indicators out of arguments
    for i, a in enumerate(args):
        if split_ind(a) is not None:
            r = ZERO
            for c, q in cases(a):
                r = r + ind_poly(c) * app(fn, *args[:i], q, *args[i + 1:])
            return r
    return Poly.atom(mk_app(fn, args))


def mk_app(fn, args):
    return _mk("app", (fn.id, tuple(a.key for a in args)), fn=fn, args=args, sort=fn.sort)


# --------------------------------------------------------------------------
class B:
    __slots__ = ("op", "args", "id", "_neg", "_atoms")
    _tab = {}

    def __repr__(self):
        if self.op == "true" or self.op == "false":
            return self.op
        if self.op == "not":
            return f"!({self.args[0]!r})"
        if self.op in ("and", "or"):
            return "(" + (" & " if self.op == "and" else " | ").join(map(repr, self.args)) + ")"
        if self.op == "atom":
            return repr(self.args[0])
        p, = self.args
        if len(p.m) == 2:
            pos = [Poly({mo: c}) for mo, c in p.m.items() if c > 0]
            neg = [Poly({mo: -c}) for mo, c in p.m.items() if c < 0]
            if len(pos) == 1 and len(neg) == 1:
                return f"{pos[0]!r} {self.op} {neg[0]!r}"
        return f"{p!r} {self.op} 0"

    def __and__(self, o):
        return And(self, o)

    def __or__(self, o):
        return Or(self, o)

    def __invert__(self):
        return Not(self)

    def __bool__(self):
        if self is TRUE:
            return True
        if self is FALSE:
            return False
        raise Unsupported("truth value of a symbolic condition taken inside the verifier")


def _b(op, *args):
    if op in ("<", "=="):
        k = (op, args[0].key)
    elif op == "atom":
        k = (op, args[0].id)
    else:
        k = (op,) + tuple(a.id for a in args)
    b = B._tab.get(k)
    if b is None:
        b = B()
        b.op = op
        b.args = args
        b.id = next(_ids)
        b._neg = None
        b._atoms = None
        B._tab[k] = b
    return b


TRUE = _b("true")
FALSE = _b("false")


def BC(x):
    if isinstance(x, B):
        return x
    return TRUE if x else FALSE


def Not(b):
    if b._neg is not None:
        return b._neg
    if b is TRUE:
        r = FALSE
    elif b is FALSE:
        r = TRUE
    elif b.op == "not":
        r = b.args[0]
    elif b.op == "and":
        r = Or(*[Not(a) for a in b.args])
    elif b.op == "or":
        r = And(*[Not(a) for a in b.args])
    else:
        r = _b("not", b)
    b._neg = r
    if r._neg is None:
        r._neg = b
    return r


def And(*bs):
    out = {}
    for b in bs:
        if b is TRUE:
            continue
        if b is FALSE:
            return FALSE
        if b.op == "and":
            for a in b.args:
                out[a] = 1
        else:
            out[b] = 1
    for b in out:
        if Not(b) in out:
            return FALSE
    # unit simplification of disjunctions
    ors = [b for b in out if b.op == "or"]
    if ors:
        changed = False
        for o in ors:
            keep = []
            sat = False
            for d in o.args:
                if d in out or (d.op == "and" and all(x in out for x in d.args)):
                    sat = True
                    break
                if Not(d) in out:
                    continue
                if d.op == "and" and any(Not(x) in out for x in d.args):
                    continue
                keep.append(d)
            if sat:
                del out[o]
                changed = True
            elif len(keep) != len(o.args):
                del out[o]
                out[Or(*keep)] = 1
                changed = True
        if changed:
            return And(*out)
    if not out:
        return TRUE
    if len(out) == 1:
        return next(iter(out))
    return _b("and", *sorted(out, key=lambda x: x.id))


def Or(*bs):
    out = {}
    for b in bs:
        if b is FALSE:
            continue
        if b is TRUE:
            return TRUE
        if b.op == "or":
            for a in b.args:
                out[a] = 1
        else:
            out[b] = 1
    for b in out:
        if Not(b) in out:
            return TRUE
    # absorption
    if any(b.op == "and" for b in out):
        new = {}
        for b in out:
            if b.op == "and" and any(x in out for x in b.args):
                continue
            if b.op == "and":
                keep = [x for x in b.args if Not(x) not in out]
                if len(keep) != len(b.args):
                    b = And(*keep)
            new[b] = 1
        if set(new) != set(out):
            return Or(*new)
    if not out:
        return FALSE
    if len(out) == 1:
        return next(iter(out))
    return _b("or", *sorted(out, key=lambda x: x.id))


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if a is b:
        return TRUE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE:
        return Not(b)
    if b is FALSE:
        return Not(a)
    return And(Or(Not(a), b), Or(a, Not(b)))


def IteB(c, a, b):
    return Or(And(c, a), And(Not(c), b))


def assume(b, fact, val):
    """simplify b knowing fact == val (syntactic)"""
    if not val:
        fact = Not(fact)
    facts = set(fact.args) if fact.op == "and" else {fact}
    return _assume(b, facts)


def _assume(b, facts):
    if b in facts:
        return TRUE
    if Not(b) in facts:
        return FALSE
    if b.op == "and":
        return And(*[_assume(a, facts) for a in b.args])
    if b.op == "or":
        return Or(*[_assume(a, facts) for a in b.args])
    return b


def ind_poly(b):
    """indicator polynomial of a boolean, canonical polarity"""
    if b is TRUE:
        return ONE
    if b is FALSE:
        return ZERO
    if b.op == "not" or b.op == "or":
        n = Not(b)
        return ONE - Poly.atom(_ind(n))
    return Poly.atom(_ind(b))


def _ind(b):
    return _mk("ind", (b.id,), b=b)


def cmp0(op, p):
    """p op 0 with op in '<', '<=', '=='"""
    p = P(p)
    if p.is_const():
        c = p.cval()
        return BC(c < 0 if op == "<" else c <= 0 if op == "<=" else c == 0)
    if split_ind(p) is not None:
        try:
            cs = cases(p)
        except Unsupported:
            # left to the solver with the indicators inside
            if op == "<=":
                return Not(_b("<", content_coeff(clear(-p, "<"))[1]))
            return _b(op, content_coeff(clear(p, op))[1])
        return Or(*[And(c, cmp0(op, q)) for c, q in cs])
    if op == "<=":
        return Not(cmp0("<", -p))
    if op == "<" and False:
        pass
    # cancel the positive part of the common monomial, clear positive denominators
    p = clear(p, op)
    if p.is_const():
        c = p.cval()
        return BC(c < 0 if op == "<" else c == 0)
    if op == "==":
        _, q = content_coeff(p)
        lead = min(q.m.items(), key=lambda t: tuple((a.id, e) for a, e in t[0]))[1]
        if lead < 0:
            q = -q
        if q.is_int() and len(q.m) > 0:
            pass
        return _b("==", q)
    _, q = content_coeff(p)
    # integer strictness normal form: p < 0  <=>  p + 1 <= 0; keep '<'
    if poly_nonneg(q):
        return FALSE
    nq = -q
    if poly_pos(nq):
        return TRUE
    return _b("<", q)


def content_coeff(p):
    """divide by the positive gcd of the coefficients"""
    from math import gcd
    nums = [c.numerator for c in p.m.values()]
    dens = [c.denominator for c in p.m.values()]
    g = 0
    for n in nums:
        g = gcd(g, n)
    l = 1
    for d in dens:
        l = l * d // gcd(l, d)
    f = Fraction(l, g)
    if f == 1:
        return 1, p
    return 1 / f, Poly({mo: c * f for mo, c in p.m.items()})


def clear(p, op):
    """multiply by positive monomials (or nonzero ones for ==) to remove common positive
    factors and positive denominators; nested denominators are cleared repeatedly"""
    for _ in range(6):
        mins = {}
        for i, mo in enumerate(p.m):
            d = dict(mo)
            for a in d:
                if a not in mins:
                    mins[a] = d[a] if i == 0 else min(0, d[a])
                else:
                    mins[a] = min(mins[a], d[a])
            for a in list(mins):
                if a not in d:
                    mins[a] = min(mins[a], 0)
        f = []
        for a, e in mins.items():
            if e and a.kind != "ind":
                if atom_pos(a):
                    f.append((a, -e))
                elif e < 0 and op == "==":
                    f.append((a, -e))
                elif e < 0:
                    # unknown sign: multiply by an even power
                    k = -e + (e % 2)
                    f.append((a, k))
        if not f:
            return p
        p = p * Poly({tuple(sorted(f, key=_mkey)): Fraction(1)})
        p = expand_dens(p)
        if not p.m:
            return p
    return p


def Lt(a, b):
    return cmp0("<", P(a) - P(b))


def Le(a, b):
    return cmp0("<=", P(a) - P(b))


def Eq(a, b):
    return cmp0("==", P(a) - P(b))


def Ne(a, b):
    return Not(Eq(a, b))


def BApp(fn, *args):
    args = tuple(P(a) for a in args)
    for i, a in enumerate(args):
        if split_ind(a) is not None:
            return Or(*[And(c, BApp(fn, *args[:i], q, *args[i + 1:])) for c, q in cases(a)])
    return _b("atom", mk_app(fn, args))


def ite(c, a, b):
    a, b = P(a), P(b)
    if c is TRUE or a == b:
        return a
    if c is FALSE:
        return b
    d = a - b
    if c.op == "<":
        d = _drop_empty(c, d)
    return b + ind_poly(c) * d


def _drop_empty(c, p):
    """p without the sums that are empty where c: size < 1 holds"""
    out = {}
    for mo, k in p.m.items():
        for x, e in mo:
            if x.kind == "app" and x.fn.agg is not None and x.fn.agg.kind == "sum" and any(Lt(n, 1) is c for n in x.fn.agg.inst(x.args)[3]):
                break
        else:
            out[mo] = k
    return p if len(out) == len(p.m) else Poly(out)


# --------------------------------------------------------------------------
# substitution of Var atoms by Polys, and traversal
def subst(t, m, memo=None):
    """substitute {Var atom: Poly} in a Poly or B"""
    if not m:
        return t
    if memo is None:
        memo = {}
    if isinstance(t, B):
        return _subst_b(t, m, memo)
    return _subst_p(t, m, memo)


def _subst_b(b, m, memo):
    if b is TRUE or b is FALSE:
        return b
    r = memo.get(b)
    if r is not None:
        return r
    if b.op == "not":
        r = Not(_subst_b(b.args[0], m, memo))
    elif b.op == "and":
        r = And(*[_subst_b(a, m, memo) for a in b.args])
    elif b.op == "or":
        r = Or(*[_subst_b(a, m, memo) for a in b.args])
    elif b.op == "atom":
        a = b.args[0]
        if not (free_locals(a) & set(m)):
            r = b
        else:
            r = rebuild_bapp(a.fn, tuple(_subst_p(x, m, memo) for x in a.args))
    else:
        r = cmp0(b.op, _subst_p(b.args[0], m, memo))
    memo[b] = r
    return r


def rebuild_bapp(fn, args):
    return BApp(fn, *args)


REBUILD = {}  # fn -> callable(*args) -> Poly : interpreted constructors (log, pow, ...)


def _subst_p(p, m, memo):
    ms = m.keys()
    hit = False
    for a in p.atoms():
        if not free_locals(a).isdisjoint(ms):
            hit = True
            break
    if not hit:
        return p
    k = ("p", p)
    r = memo.get(k)
    if r is not None:
        return r
    r = ZERO
    for mo, c in p.m.items():
        t = Poly.const(c)
        keep = []
        for a, e in mo:
            if free_locals(a).isdisjoint(ms):
                keep.append((a, e))
                continue
            q = _subst_a(a, m, memo)
            if e < 0:
                q = recip(q)
            t = t * (q ** abs(e))
        if keep:
            t = t * Poly({tuple(keep): Fraction(1)})
        r = r + t
    memo[k] = r
    return r


def _subst_a(a, m, memo):
    r = memo.get(a)
    if r is not None:
        return r
    if a.kind == "var":
        r = m.get(a)
        if r is None:
            r = Poly.atom(a)
    elif a.kind == "app":
        args = tuple(_subst_p(x, m, memo) for x in a.args)
        rb = REBUILD.get(a.fn.name) if a.fn.agg is None else None
        r = rb(*args) if rb else app(a.fn, *args)
    elif a.kind == "ind":
        r = ind_poly(_subst_b(a.b, m, memo))
    else:
        r = _subst_p(a.poly, m, memo)
    memo[a] = r
    return r


_E = frozenset()


def free_locals(a):
    """free local Var atoms of an atom"""
    f = a._fv
    if f is None:
        if a.kind == "var":
            f = frozenset((a,)) if a.local else _E
        elif a.kind == "app":
            f = _E
            for x in a.args:
                f = f | poly_locals(x)
        elif a.kind == "ind":
            f = b_locals(a.b)
        else:
            f = poly_locals(a.poly)
        a._fv = f
    return f


def poly_locals(p):
    f = _E
    for a in p.atoms():
        f = f | free_locals(a)
    return f


_bl = {}


def b_locals(b):
    f = _bl.get(b)
    if f is None:
        f = _E
        if b.op in ("<", "=="):
            f = poly_locals(b.args[0])
        elif b.op == "atom":
            f = free_locals(b.args[0])
        else:
            for x in b.args:
                f = f | b_locals(x)
        _bl[b] = f
    return f


def locals_of(t):
    return b_locals(t) if isinstance(t, B) else poly_locals(t)


def walk_atoms(ts):
    """all atoms (recursively through arguments) of a list of Poly/B"""
    seen = {}
    stack = list(ts)
    while stack:
        t = stack.pop()
        if isinstance(t, B):
            if t in seen:
                continue
            seen[t] = None
            if t.op in ("<", "=="):
                stack.append(t.args[0])
            elif t.op == "atom":
                stack.append(t.args[0])
            else:
                stack.extend(t.args)
        elif isinstance(t, Atom):
            if t in seen:
                continue
            seen[t] = 1
            if t.kind == "app":
                stack.extend(t.args)
            elif t.kind == "ind":
                stack.append(t.b)
            elif t.kind == "den":
                stack.append(t.poly)
        else:
            stack.extend(t.atoms())
    return [a for a, v in seen.items() if v]
