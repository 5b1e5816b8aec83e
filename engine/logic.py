"""Aggregates (sums, quantifiers, order statistics ... over symbolic ranges), the
path condition and the interface to the SMT solver."""
import itertools
import os
import shutil
import subprocess
import sys
import tempfile
import time
from fractions import Fraction

from .terms import *
from .terms import _mk, _mkey, _ind, _b
from . import terms as T

_site = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
try:
    import z3
except ImportError:  # the target interpreter has no z3 of its own
    sys.path.append(_site)
    try:
        import z3
    finally:
        sys.path.remove(_site)

z3.set_param("smt.random_seed", 1)

# ------------------------------------------------------------------ aggregates
_aggs = {}
PARAMS = [Var(f"π{i}", "I", local=True) for i in range(64)]
RPARAMS = [Var(f"ρ{i}", "R", local=True) for i in range(64)]
BOUND = [Var(f"β{i}", "I", local=True, nonneg=True) for i in range(8)]


RBOUND = [Var(f"χ{i}", "R", local=True) for i in range(4)]


def _bound(binders):
    return [(BOUND if b.sort == "I" else RBOUND)[i] for i, b in enumerate(binders)]


class Agg:
    """body of a lambda-lifted aggregate"""

    __slots__ = ("kind", "dims", "guard", "vals", "extras", "params", "binders", "fn", "info")

    def show(self, args):
        b = ",".join(a.name for a in self.binders)
        m = {p: a for p, a in zip(self.params, args)}
        g, v, e, d = self.inst(args)
        return f"{self.kind}_{b}<{list(d)!r}{{{'' if g is TRUE else repr(g)+': '}{', '.join(map(repr, v))}{'; ' if e else ''}{', '.join(map(repr, e))}}}"

    def inst(self, args, at=None):
        """(guard, vals, extras, dims) with the parameters replaced by args and the
        binders by ``at`` (Polys) if given"""
        m = {p: a for p, a in zip(self.params, args)}
        if at is not None:
            for b, t in zip(self.binders, at):
                m[b] = t
        memo = {}
        return (
            subst(self.guard, m, memo),
            tuple(subst(v, m, memo) for v in self.vals),
            tuple(subst(v, m, memo) for v in self.extras),
            tuple(subst(v, m, memo) for v in self.dims),
        )

    def range_cond(self, dims, at):
        return And(*[And(Le(0, t), Lt(t, n)) for t, n in zip(at, dims)])


def agg(kind, binders, dims, guard, vals, extras=(), sort="R", fnattrs=None, mkfn=True):
    """application of the aggregate; binders are fresh Var atoms, the rest are terms
    over them.  Returns the App atom."""
    binders = tuple(binders)
    if kind in ("min", "max", "sum", "all") and SORTED[0]:
        guard, vals = _unsort(binders, dims, guard, vals)
    free = {}
    for t in list(dims) + list(extras) + [guard] + list(vals):
        for a in locals_of(t):
            free[a] = 1
    free = sorted((a for a in free if a not in binders), key=lambda a: a.id)
    sh = {}
    for x in free:
        c = _param_shift(x, list(dims) + list(extras) + [guard] + list(vals)) if x.sort == "I" else 0
        if c:
            sh[x] = c
    if sh:
        mm, memo = {x: Poly.atom(x) - c for x, c in sh.items()}, {}
        dims = [subst(P(d), mm, memo) for d in dims]
        extras = [subst(P(d), mm, memo) for d in extras]
        guard = subst(guard, mm, memo)
        vals = [subst(d, mm, memo) for d in vals]
    if len(free) > 1:
        free = _param_order(free, binders, dims, extras, guard, vals)
    m = {}
    params = []
    for i, a in enumerate(free):
        p = (PARAMS if a.sort == "I" else RPARAMS)[i]
        params.append(p)
        m[a] = Poly.atom(p)
    bound = _bound(binders)
    for b, x in zip(binders, bound):
        m[b] = Poly.atom(x)
    memo = {}
    cd = tuple(subst(P(d), m, memo) for d in dims)
    cg = subst(guard, m, memo)
    cv = tuple(subst(v, m, memo) for v in vals)
    ce = tuple(subst(P(v), m, memo) for v in extras)
    key = (kind, tuple(d.key for d in cd), cg.id, tuple(v.id if isinstance(v, B) else v.key for v in cv), tuple(e.key for e in ce), tuple(p.name for p in params), len(binders), sort)
    f = _aggs.get(key)
    if f is None:
        a = Agg()
        a.kind = kind
        a.dims = cd
        a.guard = cg
        a.vals = cv
        a.extras = ce
        a.params = tuple(params)
        a.binders = tuple(bound)
        a.info = {}
        f = Fn(f"{kind}#{len(_aggs)}", len(params), sort, agg=a, **(fnattrs or {}))
        a.fn = f
        _aggs[key] = f
    return T.mk_app(f, tuple(Poly.atom(x) + sh.get(x, 0) for x in free))


SORTED = [False]


def lex_le(v, w):
    """lexicographic order of values"""
    r = Le(v[-1], w[-1])
    for x, y in reversed(list(zip(v[:-1], w[:-1]))):
        r = Or(Lt(x, y), And(Eq(x, y), r))
    return r


def _unsort(binders, dims, guard, vals):
    """order does not matter: a binder that only occurs as the argument of a permutation of its
    range is replaced by the permuted index"""
    for b, n in zip(binders, dims):
        if b.sort != "I":
            continue
        ts = [guard, *vals]
        perms = [a for a in walk_atoms(ts) if a.kind == "app" and a.fn.agg is not None and a.fn.agg.kind == "asort" and b in T.free_locals(a)]
        if len(perms) != 1:
            continue
        a = perms[0]
        g = a.fn.agg
        _, _, (i,), (m,) = g.inst(a.args)
        used = [x for p, x in zip(g.params, a.args) if b in poly_locals(x)]
        if m.key != P(n).key or i.key != Poly.atom(b).key or len(used) != 1 or any(b in poly_locals(v) for v in g.inst(a.args, (ZERO,))[1]):
            continue
        new = fresh("o").atoms()[0]
        memo = {a: Poly.atom(new)}
        r = [subst(t, {b: Poly.atom(POISON)}, memo) for t in ts]
        if any(POISON in locals_of(t) for t in r):
            continue
        r = [subst(t, {new: Poly.atom(b)}) for t in r]
        guard, vals = r[0], r[1:]
    return guard, vals


POISON = Var("poison", "I", local=True)


def _param_shift(b, terms):
    """smallest c such that b occurs as f(b + c), if it only occurs in such places"""
    offs = set()
    seen = set()

    def poly(p, arg):
        if poly_locals(p).isdisjoint({b}):
            return True
        if arg and p.m.get(((b, 1),)) == 1:
            rest = p - Poly.atom(b)
            if rest.is_const() and rest.cval().denominator == 1:
                offs.add(int(rest.cval()))
                return True
            return False
        return all(atom(a) for a in p.atoms())

    def boolean(x):
        if x.id in seen:
            return True
        seen.add(x.id)
        return all((boolean(y) if isinstance(y, B) else poly(y, False) if isinstance(y, Poly) else atom(y)) for y in x.args)

    def atom(a):
        if free_locals(a).isdisjoint({b}):
            return True
        if a is b:
            return False
        if a.kind == "app":
            return all(poly(x, True) for x in a.args)
        if a.kind == "den":
            return poly(a.poly, False)
        if a.kind == "ind":
            return boolean(a.b)
        return False
    ok = all((boolean(t) if isinstance(t, B) else poly(P(t), False)) for t in terms)
    return min(offs) if ok and offs else 0


MARK = {s: (Var("★" + s, s, local=True), Var("●" + s, s, local=True)) for s in "IR"}


def _param_order(free, binders, dims, extras, guard, vals):
    """order of the parameters that depends on the places they occur in, not on the order
    in which the variables were created"""
    terms = [*map(P, dims), *map(P, extras), guard, *vals]

    def signature(a):
        m = {x: Poly.atom(MARK[x.sort][x is not a]) for x in free}
        for b, y in zip(binders, _bound(binders)):
            m[b] = Poly.atom(y)
        memo = {}
        return tuple(str(x.id if isinstance(x, B) else x.key) for x in (subst(t, m, memo) for t in terms))
    sig = {a: signature(a) for a in free}
    return sorted(free, key=lambda a: (sig[a], a.id))


def _depends(a, bset):
    return not free_locals(a).isdisjoint(bset)


def _split_guard(guard, bset):
    """guard = dependent & independent"""
    conj = guard.args if guard.op == "and" else (guard,)
    dep = [c for c in conj if not b_locals(c).isdisjoint(bset)]
    ind = [c for c in conj if b_locals(c).isdisjoint(bset)]
    return And(*dep), And(*ind)


UNROLL = 6
INTERP = ("interp", "lininterp", "quadspline")
ON_FRESH = None


def _fresh_box(prefix, dims):
    js = [fresh(prefix) for _ in dims]
    if ON_FRESH is not None:
        for j, d in zip(js, dims):
            ON_FRESH(j.atoms()[0], d)
    return js


def let(p, limit=2, nonneg=False):
    """name for a large term, with its definition as an axiom"""
    if len(p.m) <= limit:
        return p
    # known not to be negative: a symbol of its own, the knowledge may depend on the path
    return Poly.atom(agg("let", (), (), TRUE, (p,), (ONE,), fnattrs={"nonneg": True}) if nonneg else agg("let", (), (), TRUE, (p,)))


def bsum(dims, body, guard=None):
    """Sum over the box of dims of body(*idx) restricted to guard(*idx)"""
    dims = [P(d) for d in dims]
    # unroll constant dimensions
    for i, d in enumerate(dims):
        if d.is_const() and d.cval() <= UNROLL:
            r = ZERO
            for c in range(int(d.cval())):
                cc = Poly.const(c)

                def bd(*idx, i=i, cc=cc):
                    return body(*idx[:i], cc, *idx[i:])

                gd = None
                if guard is not None:
                    def gd(*idx, i=i, cc=cc):
                        return guard(*idx[:i], cc, *idx[i:])
                r = r + bsum(dims[:i] + dims[i + 1:], bd, gd)
            return r
    if not dims:
        b = body()
        if guard is not None:
            b = ind_poly(guard()) * b
        return b
    js = _fresh_box("j", dims)
    g = TRUE if guard is None else guard(*js)
    p = body(*js)
    return sum_term([next(iter(j.m))[0][0] for j in js], dims, g, p)


def sum_term(binders, dims, guard, p):
    bset = frozenset(binders)
    gdep, gind = _split_guard(guard, bset)
    if gdep is FALSE or gind is FALSE:
        return ZERO
    outer = ind_poly(gind)
    r = ZERO
    for mo, c in p.m.items():
        out, inn, conds = [], [], [gdep]
        oc = []
        for a, e in mo:
            if a.kind == "ind":
                d, i = _split_guard(a.b, bset)
                conds.append(d)
                oc.append(i)
            elif _depends(a, bset):
                inn.append((a, e))
            else:
                out.append((a, e))
        f = Poly({tuple(out): c}) * ind_poly(And(*oc)) * outer
        g = And(*conds)
        if g is FALSE:
            continue
        r = r + f * _sum_mono(list(binders), list(dims), g, tuple(inn))
    return r


def _sum_mono(binders, dims, guard, mono):
    bset = frozenset(binders)
    # Kronecker guards
    conj = guard.args if guard.op == "and" else (guard,) if guard is not TRUE else ()
    for c in conj:
        if c.op == "==":
            p = c.args[0]
            for i, b in enumerate(binders):
                k = p.m.get(((b, 1),))
                if k is not None and abs(k) == 1 and sum(1 for mo in p.m for a, e in mo if _depends(a, {b})) == 1:
                    t = Poly.atom(b) - p * Poly.const(1 / k) if k == 1 else Poly.atom(b) + p
                    if not t.is_int() or t == Poly.atom(b):
                        continue
                    rest = And(*[x for x in conj if x is not c])
                    m = {b: t}
                    ng = And(subst(rest, m), Le(0, t), Lt(t, dims[i]))
                    nb = binders[:i] + binders[i + 1:]
                    nd = dims[:i] + dims[i + 1:]
                    body = subst(Poly({mono: Fraction(1)}), m)
                    if not nb:
                        return ind_poly(ng) * body
                    return sum_term(nb, nd, ng, body)
    # binders that do not occur at all
    for i, b in enumerate(binders):
        if not any(_depends(a, {b}) for a, _ in mono) and b_locals(guard).isdisjoint({b}) and all(poly_locals(d).isdisjoint({b}) for d in dims):
            rest = [x for x in binders if x is not b]
            nd = dims[:i] + dims[i + 1:]
            if not rest:
                return dims[i] * ind_poly(guard)
            return dims[i] * sum_term(rest, nd, guard, Poly({mono: Fraction(1)}))
    # shift normal form
    if len(binders) == 1 and guard is TRUE:
        c = _min_shift(mono, binders[0])
        if c:
            b = binders[0]
            base = subst(Poly({mono: Fraction(1)}), {b: Poly.atom(b) - c})
            r = sum_term(binders, dims, TRUE, base)
            for k in range(1, c + 1) if c > 0 else ():
                r = r + subst(base, {b: dims[0] + (c - k)}) - subst(base, {b: P(c - k)})
            return r
    nn = all(T.atom_nonneg(a) or e % 2 == 0 for a, e in mono)
    a = agg("sum", binders, dims, guard, (Poly({mono: Fraction(1)}),), fnattrs={"nonneg": nn})
    return Poly.atom(a)


def _min_shift(mono, b):
    offs = []
    ok = True

    def visit_poly(p):
        nonlocal ok
        if poly_locals(p).isdisjoint({b}):
            return
        # argument position
        k = p.m.get(((b, 1),))
        rest = p - Poly.atom(b)
        if k == 1 and poly_locals(rest).isdisjoint({b}):
            if rest.is_const() and rest.cval().denominator == 1:
                offs.append(int(rest.cval()))
            else:
                ok = False
            return
        for a in p.atoms():
            visit(a)
            if a is b:
                ok = False

    def visit(a):
        nonlocal ok
        if free_locals(a).isdisjoint({b}):
            return
        if a is b:
            ok = False
        elif a.kind == "app":
            for x in a.args:
                visit_poly(x)
        elif a.kind == "den":
            for x in a.poly.atoms():
                visit(x)
        else:
            ok = False

    for a, _ in mono:
        visit(a)
    if not ok or not offs:
        return 0
    m = min(offs)
    return m if m > 0 else 0


def ball(dims, body, guard=None):
    """forall idx in box with guard: body"""
    dims = [P(d) for d in dims]
    for i, d in enumerate(dims):
        if d.is_const() and d.cval() <= UNROLL:
            r = TRUE
            for c in range(int(d.cval())):
                cc = Poly.const(c)
                r = And(r, ball(dims[:i] + dims[i + 1:], lambda *idx, i=i, cc=cc: body(*idx[:i], cc, *idx[i:]),
                                None if guard is None else (lambda *idx, i=i, cc=cc: guard(*idx[:i], cc, *idx[i:]))))
            return r
    if not dims:
        b = body()
        return b if guard is None else Implies(guard(), b)
    js = _fresh_box("q", dims)
    bs = [next(iter(j.m))[0][0] for j in js]
    g = TRUE if guard is None else guard(*js)
    bd = body(*js)
    f = Implies(g, bd)
    if f is TRUE:
        return TRUE
    bset = frozenset(bs)
    if b_locals(f).isdisjoint(bset):
        return Or(f, *[Le(d, 0) for d in dims])
    if f.op == "and":
        return And(*[_all_atom(bs, dims, x) for x in f.args])
    return _all_atom(bs, dims, f)


def _all_atom(bs, dims, f):
    bset = frozenset(bs)
    if f.op == "or":
        ind = [x for x in f.args if b_locals(x).isdisjoint(bset)]
        if ind:
            dep = [x for x in f.args if not b_locals(x).isdisjoint(bset)]
            return Or(*ind, _all_atom(bs, dims, Or(*dep)))
    if b_locals(f).isdisjoint(bset):
        return Or(f, *[Le(d, 0) for d in dims])
    return _b("atom", agg("all", bs, dims, TRUE, (f,), sort="B"))


def bany(dims, body, guard=None):
    return Not(ball(dims, lambda *i: Not(body(*i)), guard))


def affine_parts(p, bset):
    """p = off + scale*core with off, scale independent of the binders and scale
    syntactically positive; returns (off, scale, core)"""
    off = {}
    dep = {}
    for mo, c in p.m.items():
        if any(_depends(a, bset) for a, _ in mo):
            dep[mo] = c
        else:
            off[mo] = c
    if not dep:
        return p, ZERO, ZERO
    # common factor of the dependent monomials
    common = None
    for mo in dep:
        d = {a: e for a, e in mo if a.kind != "ind" and T.atom_pos(a) and not _depends(a, bset)}
        if common is None:
            common = d
        else:
            for a in list(common):
                if a not in d or (common[a] > 0) != (d[a] > 0):
                    del common[a]
                else:
                    common[a] = min(common[a], d[a]) if common[a] > 0 else max(common[a], d[a])
    c0 = abs(next(iter(sorted(dep.items(), key=lambda t: tuple((a.id, e) for a, e in t[0]))))[1])
    scale = Poly({tuple(sorted(common.items(), key=_mkey)): c0})
    core = Poly(dep) * recip(scale)
    return Poly(off), scale, core


def order_stat(kind, dims, val, guard, extras=(), sort="R"):
    """translation/scale equivariant statistic (quantile, min, max) of the values"""
    dims = [P(d) for d in dims]
    if any(d.is_const() and d.cval() == 1 for d in dims) and len(dims) > 1:
        # axes of length one
        at = [d.is_const() and d.cval() == 1 for d in dims]

        def full(z):
            z = iter(z)
            return [ZERO if one else next(z) for one in at]
        v0, g0 = val, guard
        val = lambda *z: v0(*full(z))
        guard = None if g0 is None else lambda *z: g0(*full(z))
        dims = [d for d, one in zip(dims, at) if not one] or [ONE]
        if all(at):
            val = lambda *z: v0(*[ZERO] * len(at))
            guard = None if g0 is None else lambda *z: g0(*[ZERO] * len(at))
    if guard is None and not extras and kind in ("min", "max") and len(dims) == 1 and dims[0].is_const() and 1 <= dims[0].cval() <= 4:
        r = val(ZERO)
        for k in range(1, int(dims[0].cval())):
            v = val(P(k))
            c = Lt(v, r) if kind == "min" else Lt(r, v)
            r = ite(c, v, r)
        return r
    js = _fresh_box("s", dims)
    bs = [next(iter(j.m))[0][0] for j in js]
    g = TRUE if guard is None else guard(*js)
    v = val(*js)
    if split_ind(v) is not None:
        # simplify with the guard
        for c, q in cases(v):
            if T.assume(g, c, True) is g and And(g, c) is g:
                v = q
                break
    off, scale, core = affine_parts(v, frozenset(bs))
    if not core.m:
        return off
    return off + scale * Poly.atom(agg(kind, bs, dims, g, (core,), extras))


# ------------------------------------------------------------------ universal facts
class Forall:
    __slots__ = ("binders", "body", "name", "_trig", "serial")
    count = 0

    def __init__(self, n, fn, name=""):
        Forall.count += 1
        self.serial = -Forall.count
        js = [fresh("u") for _ in range(n)]
        self.binders = tuple(next(iter(j.m))[0][0] for j in js)
        self.body = fn(*js)
        self.name = name
        self._trig = None

    def triggers(self):
        if self._trig is None:
            self._trig = find_triggers(self.binders, [self.body])
        return self._trig

    def inst(self, at):
        return subst(self.body, {b: t for b, t in zip(self.binders, at)})


def find_triggers(binders, terms):
    """list of (fn, argument patterns): pattern per argument is ('b', i, offset) or None"""
    out = []
    bset = frozenset(binders)
    seen = set()
    for a in walk_atoms(terms):
        if a.kind == "app" and _depends(a, bset):
            pats = []
            cover = set()
            ok = True
            for x in a.args:
                if poly_locals(x).isdisjoint(bset):
                    pats.append(None)
                    continue
                hit = None
                for i, b in enumerate(binders):
                    if x.m.get(((b, 1),)) == 1:
                        rest = x - Poly.atom(b)
                        if poly_locals(rest).isdisjoint(bset) and rest.is_int():
                            hit = ("b", i, rest)
                            cover.add(i)
                pats.append(hit)
                if hit is None:
                    ok = ok
            if len(cover) == len(binders):
                k = (a.fn.id, tuple((p[1], p[2].key) if p else None for p in pats))
                if k not in seen:
                    seen.add(k)
                    out.append((a.fn, pats))
    return out


# ------------------------------------------------------------------ z3 translation
class Z3T:
    def __init__(self):
        self.fns = {}
        self.vars = {}
        self.memo = {}

    def sort(self, s):
        return {"I": z3.IntSort(), "R": z3.RealSort(), "B": z3.BoolSort()}[s]

    def atom(self, a):
        r = self.memo.get(a)
        if r is not None:
            return r
        if a.kind == "var":
            r = z3.Const(a.name, self.sort(a.sort))
        elif a.kind == "app":
            args = [self.poly(x) for x in a.args]
            srt = tuple("I" if z3.is_int(x) else "R" for x in args)
            if not args:
                r = z3.Const(f"{a.fn.name}", self.sort(a.fn.sort))
            else:
                # an integer-valued argument may be given to a real-argument function
                want = a.fn.attrs.get("argsorts")
                if want:
                    args = [z3.ToReal(x) if w == "R" and z3.is_int(x) else x for x, w in zip(args, want)]
                    srt = tuple("I" if z3.is_int(x) else "R" for x in args)
                f = self.fns.get((a.fn.id, srt))
                if f is None:
                    f = z3.Function(f"{a.fn.name}@{a.fn.id}{''.join(srt)}", *[self.sort(s) for s in srt], self.sort(a.fn.sort))
                    self.fns[(a.fn.id, srt)] = f
                r = f(*args)
        elif a.kind == "ind":
            r = z3.If(self.b(a.b), z3.IntVal(1), z3.IntVal(0))
        else:
            r = self.poly(a.poly)
        self.memo[a] = r
        return r

    def poly(self, p):
        k = ("p", p)
        r = self.memo.get(k)
        if r is not None:
            return r
        isint = p.is_int()
        ts = []
        for mo, c in p.m.items():
            fs = []
            for a, e in mo:
                x = self.atom(a)
                if not isint and z3.is_int(x):
                    x = z3.ToReal(x)
                if e < 0:
                    x = 1 / x
                for _ in range(abs(e)):
                    fs.append(x)
            cc = z3.IntVal(int(c)) if isint else z3.RealVal(c)
            if not fs:
                t = cc
            else:
                t = fs[0]
                for f in fs[1:]:
                    t = t * f
                if c != 1:
                    t = cc * t
            ts.append(t)
        if not ts:
            r = z3.IntVal(0) if isint else z3.RealVal(0)
        else:
            r = ts[0] if len(ts) == 1 else z3.Sum(ts)
        self.memo[k] = r
        return r

    def b(self, b):
        r = self.memo.get(b)
        if r is not None:
            return r
        if b is TRUE:
            r = z3.BoolVal(True)
        elif b is FALSE:
            r = z3.BoolVal(False)
        elif b.op == "not":
            r = z3.Not(self.b(b.args[0]))
        elif b.op == "and":
            r = z3.And([self.b(x) for x in b.args])
        elif b.op == "or":
            r = z3.Or([self.b(x) for x in b.args])
        elif b.op == "atom":
            r = self.atom(b.args[0])
        else:
            p = b.args[0]
            # put positive monomials left, negative right
            l = Poly({m: c for m, c in p.m.items() if c > 0})
            rr = Poly({m: -c for m, c in p.m.items() if c < 0})
            x, y = self.poly(l), self.poly(rr)
            if z3.is_int(x) != z3.is_int(y):
                if z3.is_int(x):
                    x = z3.ToReal(x)
                else:
                    y = z3.ToReal(y)
            r = x < y if b.op == "<" else x == y
        self.memo[b] = r
        return r


# ------------------------------------------------------------------ solver
class Stats:
    def __init__(self):
        self.queries = 0
        self.z3_time = 0.0
        self.cvc5_time = 0.0
        self.cvc5_proved = 0
        self.unknown = 0
        self.by_simplifier = 0
        self.by_z3 = 0
        self.cache = 0


STATS = Stats()
_cache = {}
_skolem = {}

# symmetric pair axioms are generated only between at most this many applications
MAX_PAIR = 14


def skolems(a, which=""):
    """skolem constants of an aggregate application (witness)"""
    s = _skolem.get((a, which))
    if s is None:
        s = tuple(Poly.atom(Var(f"w{which}!{a.id}.{i}", "I", local=True)) for i in range(len(a.fn.agg.binders)))
        _skolem[a, which] = s
    return s


COUNT_AT = []


def is_count(g):
    """number of indices with a property"""
    return g.kind == "sum" and len(g.binders) == 1 and g.guard is not TRUE and g.vals[0] == P(1)


CLOSE_HOOKS = []
LEMMAS = []


def comparisons(facts):
    """the polynomials compared with 0 somewhere in the facts"""
    seen, out, todo = set(), [], list(facts)
    while todo:
        b = todo.pop()
        if b in seen or not isinstance(b, B):
            continue
        seen.add(b)
        if b.op in ("not", "and", "or"):
            todo.extend(b.args)
        elif b.op in ("<", "=="):
            out.append(b.args[0])
    return out


class Query:
    def __init__(self, hyps, rounds=3, agg_congr=True, budget=900):
        self.facts = []
        self.foralls = []
        self.done = set()
        self.apps = {}
        self.insts = set()
        self.agg_congr = agg_congr
        self.pending = []
        self.counted = {}
        self.counts = {}
        for h in hyps:
            self.add(h)
        self.budget = budget

    def add(self, h):
        if isinstance(h, Forall):
            self.foralls.append(h)
        elif h is not TRUE:
            if h in self.done:
                return
            self.done.add(h)
            self.facts.append(h)
            self.pending.append(h)

    def close(self, rounds=3):
        """instantiate axiom schemas for the applications that occur"""
        for _ in range(rounds):
            if not self.pending and _ > 0:
                break
            new = []
            todo, self.pending = self.pending, []
            for a in walk_atoms(todo):
                if a.kind == "app" and a not in self.apps:
                    self.apps[a] = 1
                    new.append(a)
                elif a.kind == "var" and a not in self.apps:
                    self.apps[a] = 1
                    if a.pos:
                        self.add(Lt_raw(a))
                    elif a.nonneg:
                        self.add(Ge_raw(a))
            if not new and _ > 0:
                break
            byfn = {}
            for a in self.apps:
                if a.kind == "app":
                    byfn.setdefault(a.fn, []).append(a)
            for a in new:
                fn = a.fn
                if fn.sort != "B":
                    if fn.attrs.get("pos"):
                        self.add(Lt_raw(a))
                    elif fn.attrs.get("nonneg"):
                        self.add(Ge_raw(a))
                for ax in fn.axioms:
                    for f in ax(*a.args):
                        self.add(f)
                if fn.agg is not None:
                    self.agg_axioms(a)
                if fn.pair_axioms:
                    for o in byfn[fn][:MAX_PAIR]:
                        if o is not a and (o not in new or o.id < a.id):
                            for ax in fn.pair_axioms:
                                for f in ax(a.args, o.args):
                                    self.add(f)
                                for f in ax(o.args, a.args):
                                    self.add(f)
            # universal facts (E-matching)
            for fa in list(self.foralls):
                self.match(fa, fa.triggers(), lambda at, fa=fa: fa.inst(at), byfn)
            for a in list(self.apps):
                if a.kind == "app" and a.fn.agg is not None and a.fn.agg.kind in ("all", "sum", "min", "max", "argmin", "dig", "digx", "interp", "lininterp", "quadspline", "asort", "griddata"):
                    self.match_agg(a, byfn)
            if len(self.facts) > self.budget:
                break
        for hook in CLOSE_HOOKS:
            hook(self)

    def match(self, owner, trig, make, byfn):
        nb = None
        for fn, pats in trig:
            for o in byfn.get(fn, ()):
                sub = {}
                ok = True
                for p, x in zip(pats, o.args):
                    if p is None:
                        continue
                    t = x - p[2]
                    if p[1] in sub and sub[p[1]] != t:
                        ok = False
                        break
                    sub[p[1]] = t
                if not ok:
                    continue
                at = tuple(sub[i] for i in range(len(sub)))
                k = (id(owner), tuple(t.key for t in at))
                if k in self.insts:
                    continue
                self.insts.add(k)
                if any(split_ind(t) is not None for t in at):
                    continue
                self.add(make(at))

    def match_agg(self, a, byfn):
        g = a.fn.agg
        trig = g.info.get("trig")
        if trig is None:
            trig = g.info["trig"] = find_triggers(g.binders, [g.guard, *g.vals])
        if g.kind == "all":
            def make(at):
                gd, (v,), ex, dims = g.inst(a.args, at)
                return Implies(And(_b("atom", a), g.range_cond(dims, at), gd), v)
        elif g.kind == "sum":
            if not a.fn.attrs.get("nonneg"):
                return

            def make(at):
                gd, (v,), ex, dims = g.inst(a.args, at)
                f = Implies(And(g.range_cond(dims, at), gd), Le(v, Poly.atom(a)))
                if is_count(g):
                    self.counted_at(a, at[0])
                    f = And(f, Implies(And(g.range_cond(dims, at), Not(gd)), Le(Poly.atom(a), dims[0] - 1)))
                return f
        elif g.kind in ("min", "max"):
            def make(at):
                gd, (v,), ex, dims = g.inst(a.args, at)
                x = Poly.atom(a)
                return Implies(And(g.range_cond(dims, at), gd), Le(x, v) if g.kind == "min" else Le(v, x))
        elif g.kind == "dig":
            def make(at):
                gd, (v,), (x,), (n,) = g.inst(a.args, at)
                r, t = Poly.atom(a), at[0]
                return And(Implies(And(Le(0, t), Lt(t, r)), Le(v, x)), Implies(And(Le(r, t), Lt(t, n)), Lt(x, v)))
        elif g.kind == "digx":
            def make(at):
                return digx_fact(a, at[0])
        elif g.kind == "argmin":
            def make(at):
                return argmin_fact(a, at[0])
        elif g.kind == "griddata":
            def make(at):
                _, (v, *p), (_, *t), (n,) = g.inst(a.args, at)
                return Implies(And(Le(0, at[0]), Lt(at[0], n), *[Eq(x, y) for x, y in zip(p, t)]), Eq(Poly.atom(a), v))
        elif g.kind == "asort":
            # every value is between the one in the first and the one in the last place
            k = g.params.index(g.extras[0].atoms()[0])

            def make(at):
                t = at[0].atoms()
                if len(t) == 1 and t[0].kind == "app" and t[0].fn is a.fn:
                    return TRUE
                _, v, _, (n,) = g.inst(a.args, at)
                lo, hi = (g.inst(a.args, (app(a.fn, *a.args[:k], p, *a.args[k + 1:]),))[1] for p in (ZERO, n - 1))
                return Implies(And(Le(0, at[0]), Lt(at[0], n)), And(lex_le(lo, v), lex_le(v, hi)))
        elif g.kind in INTERP:
            def make(at):
                gd, (xp, fp), (x,), (n,) = g.inst(a.args, at)
                node = Implies(And(Le(0, at[0]), Lt(at[0], n), Eq(x, xp)), Eq(Poly.atom(a), fp))
                if g.kind == "quadspline":
                    return node
                _, (xq, fq), _, _ = g.inst(a.args, (at[0] + 1,))
                lo, hi = Le(xp, x), Le(x, xq)
                if g.kind == "interp":
                    # nodes in ascending order, some may coincide: x lies in [xp, xq)
                    node = Implies(And(Le(0, at[0]), Lt(at[0], n), Eq(x, xp), Or(Eq(at[0], n - 1), Lt(xp, xq))), Eq(Poly.atom(a), fp))
                    hi = Lt(x, xq)
                if g.kind == "lininterp":
                    lo, hi = Or(lo, Eq(at[0], 0)), Or(hi, Eq(at[0], n - 2))
                return And(node, Implies(And(Le(0, at[0]), Lt(at[0], n - 1), Lt(xp, xq), lo, hi),
                                         Eq((Poly.atom(a) - fp) * (xq - xp), (fq - fp) * (x - xp))))
        else:
            return
        self.match(a, trig, make, byfn)

    def counted_at(self, a, t, limit=6):
        """two different indices with the property: at least two are counted"""
        l = self.counted.setdefault(a, [])
        if len(l) >= limit or any(t == u for u in l):
            return
        g = a.fn.agg
        has = lambda t: And(g.range_cond(g.inst(a.args)[3], (t,)), g.inst(a.args, (t,))[0])
        n = g.inst(a.args)[3][0]
        out = lambda t: And(g.range_cond((n,), (t,)), Not(g.inst(a.args, (t,))[0]))
        for u in l:
            ne = Not(Eq(t, u))
            self.add(Implies(And(has(t), has(u), ne), Le(2, Poly.atom(a))))
            self.add(Implies(And(out(t), out(u), ne), Le(Poly.atom(a), n - 2)))
        l.append(t)

    def agg_axioms(self, a):
        g = a.fn.agg
        if g.kind == "let":
            self.add(Eq(Poly.atom(a), g.inst(a.args)[1][0]))
        elif g.kind == "all":
            w = skolems(a)
            gd, (v,), ex, dims = g.inst(a.args, w)
            self.add(Or(_b("atom", a), And(g.range_cond(dims, w), gd, Not(v))))
        elif g.kind == "sum" and a.fn.attrs.get("nonneg"):
            w = skolems(a)
            gd, (v,), ex, dims = g.inst(a.args, w)
            x = Poly.atom(a)
            self.add(Or(Le(x, 0), And(g.range_cond(dims, w), gd, Lt(0, v))))
            if is_count(g):
                # all of them, or one is missing
                m = skolems(a, "n")
                self.add(Or(And(Lt(dims[0], 0), Eq(x, 0)), Eq(x, dims[0]), And(g.range_cond(dims, m), Not(g.inst(a.args, m)[0]), Le(x, dims[0] - 1))))
                # at most one with / without it, or two different ones
                has = lambda t: g.inst(a.args, t)[0]
                s = skolems(a, "s")
                self.add(Or(Le(x, 1), And(g.range_cond(dims, s), has(s), g.range_cond(dims, w), has(w), Not(Eq(s[0], w[0])))))
                o = skolems(a, "o")
                self.add(Or(Le(dims[0] - 1, x), And(g.range_cond(dims, o), Not(has(o)), g.range_cond(dims, m), Not(has(m)), Not(Eq(o[0], m[0])))))
                for t in (w, s, m, o):
                    self.counted_at(a, t[0])
                # those with and those without the property
                if not COUNT_AT:
                    COUNT_AT.append(fresh("c"))
                gd = g.inst(a.args, COUNT_AT)[0]
                self.counts[dims[0].key, gd.id] = a
                o = self.counts.get((dims[0].key, Not(gd).id))
                if o is not None:
                    self.add(Implies(Le(0, dims[0]), Eq(x + Poly.atom(o), dims[0])))
        elif g.kind in ("min", "max"):
            w = skolems(a)
            gd, (v,), ex, dims = g.inst(a.args, w)
            x = Poly.atom(a)
            # attained when the set is not empty (emptiness is excluded by the guard fact)
            ne = bany(dims, lambda *i: g.inst(a.args, i)[0])
            self.add(Or(Not(ne), And(g.range_cond(dims, w), gd, Eq(x, v))))
            trig = g.info.get("trig")
            if len(dims) == 1 and trig and any(f.agg is not None and f.agg.kind == "sum" for f, _ in trig):
                # running sums: the last one is often not written as an instance of the others
                for t in (ZERO, dims[0] - 1):
                    gd, (v,), ex, _ = g.inst(a.args, (t,))
                    self.add(Implies(And(Le(0, t), Lt(t, dims[0]), gd), Le(x, v) if g.kind == "min" else Le(v, x)))

        elif g.kind == "dig":
            r = Poly.atom(a)
            gd, (v0,), (x,), (n,) = g.inst(a.args, (r - 1,))
            gd, (v1,), _, _ = g.inst(a.args, (r,))
            self.add(And(Le(0, r), Le(r, n)))
            self.add(Implies(Lt(0, r), Le(v0, x)))
            self.add(Implies(Lt(r, n), Lt(x, v1)))
        elif g.kind == "digx":
            r = Poly.atom(a)
            n = g.inst(a.args)[3][0]
            self.add(And(Le(0, r), Le(r, n)))
            self.add(digx_fact(a, r - 1))
            self.add(digx_fact(a, r))
        elif g.kind in INTERP:
            r = Poly.atom(a)
            _, _, (x,), (n,) = g.inst(a.args, (ZERO,))
            for t in (ZERO, n - 1):
                _, (xp, fp), _, _ = g.inst(a.args, (t,))
                if g.kind == "interp":
                    self.add(Implies(And(Lt(0, n), Lt(x, xp) if t is ZERO else Le(xp, x)), Eq(r, fp)))
                else:
                    self.add(Implies(And(Lt(0, n), Eq(x, xp)), Eq(r, fp)))
        elif g.kind == "segments":
            # on the line between two neighbouring nodes, if there are nodes on both sides
            r = Poly.atom(a)
            lo, hi = skolems(a, "lo")[0], skolems(a, "hi")[0]
            gl, (xl, fl), (x,), dims = g.inst(a.args, (lo,))
            gh, (xh, fh), _, _ = g.inst(a.args, (hi,))
            none = lambda side: ball(dims, lambda j: Or(Not(g.inst(a.args, (j,))[0]), side(g.inst(a.args, (j,))[1][0])))
            self.add(Or(none(lambda p: Lt(x, p)), none(lambda p: Lt(p, x)),
                        And(g.range_cond(dims, (lo,)), g.range_cond(dims, (hi,)), Lt(lo, hi), gl, gh, Le(xl, x), Le(x, xh),
                            ball(dims, lambda j: Or(Le(j, lo), Le(hi, j), Not(g.inst(a.args, (j,))[0]))),
                            Eq((r - fl) * (xh - xl), (fh - fl) * (x - xl)), Or(Not(Eq(x, xl)), Eq(r, fl)), Or(Not(Eq(x, xh)), Eq(r, fh)))))
        elif g.kind == "root":
            # a continuous function that changes sign between lo and hi has a root there
            r = Poly.atom(a)
            _, (fr,), (lo, hi), _ = g.inst(a.args, (r,))
            fl, fh = (g.inst(a.args, (x,))[1][0] for x in (lo, hi))
            self.add(Implies(Or(And(Le(fl, 0), Le(0, fh)), And(Le(fh, 0), Le(0, fl))),
                             And(Eq(fr, 0), Or(And(Le(lo, r), Le(r, hi)), And(Le(hi, r), Le(r, lo))))))
        elif g.kind == "asort":
            r = Poly.atom(a)
            _, _, (i,), (n,) = g.inst(a.args)
            self.add(Implies(And(Le(0, i), Lt(i, n)), And(Le(0, r), Lt(r, n))))
        elif g.kind == "argmin":
            r = Poly.atom(a)
            gd, vs, ex, (n,) = g.inst(a.args, (r,))
            rng = And(Le(0, r), Lt(r, n), gd)
            ne = bany((n,), lambda i: g.inst(a.args, (i,))[0]) if g.guard is not TRUE else Lt(0, n)
            self.add(Implies(ne, rng))
            if n.is_const() and n.cval() <= 12:
                for i in range(int(n.cval())):
                    f = argmin_fact(a, P(i))
                    if f is not None:
                        self.add(f)

    def congruence_pairs(self):
        """pairs of aggregate applications of the same kind with different symbols"""
        by = {}
        for a in self.apps:
            if a.kind == "app" and a.fn.agg is not None:
                g = a.fn.agg
                if g.kind == "let":
                    continue
                by.setdefault((g.kind, len(g.binders), len(g.vals), len(g.extras)), []).append(a)
        out = []
        for l in by.values():
            for i in range(len(l)):
                for j in range(i):
                    if l[i].fn is not l[j].fn:
                        out.append((l[i], l[j]))
        return out


def ext_lt(v, w):
    """order of extended reals given as (p, is +inf, is -inf)"""
    (p, pi, ni), (q, pj, nj) = v, w
    return Or(And(ni, Not(nj)), And(pj, Not(pi)), And(Not(pi), Not(ni), Not(pj), Not(nj), Lt(p, q)))


def argmin_fact(a, t):
    """a is the first minimum: facts about candidate t"""
    g = a.fn.agg
    r = Poly.atom(a)
    gr, vr, ex, (n,) = g.inst(a.args, (r,))
    gt, vt, _, _ = g.inst(a.args, (t,))
    return Implies(And(Le(0, t), Lt(t, n), gt),
                   And(Le(0, r), Lt(r, n), gr, Not(ext_lt(vt, vr)), Implies(Lt(t, r), ext_lt(vr, vt))))


def digx_fact(a, t):
    """number of (extended real) edges <= x, edges increasing: facts about edge t"""
    g = a.fn.agg
    r = Poly.atom(a)
    _, v, (x, xi, xn), (n,) = g.inst(a.args, (t,))
    below = Not(ext_lt((x, Eq(xi, 1), Eq(xn, 1)), v))
    return And(Implies(And(Le(0, t), Lt(t, r)), below), Implies(And(Le(r, t), Lt(t, n)), Not(below)))


def Lt_raw(a):
    return _b("<", -Poly.atom(a))


def Ge_raw(a):
    return Not(_b("<", Poly.atom(a)))


_rctr = itertools.count()


def agg_equal_goal(a, o):
    """(binders fresh) B formula implying that the two aggregate applications are equal"""
    g1, g2 = a.fn.agg, o.fn.agg
    js = tuple(fresh("c") if b.sort == "I" else Poly.atom(Var(f"{b.name}!{next(_rctr)}", "R", local=True)) for b in g1.binders)
    gd1, v1, e1, d1 = g1.inst(a.args, js)
    gd2, v2, e2, d2 = g2.inst(o.args, js)
    rng = g1.range_cond(d1, js)
    eqs = []
    for x, y in zip(v1, v2):
        eqs.append(Iff(x, y) if isinstance(x, B) else Eq(x, y))
    return And(*[Eq(x, y) for x, y in zip(d1, d2)], *[Eq(x, y) for x, y in zip(e1, e2)],
               Or(Not(rng), And(Iff(gd1, gd2), Or(Not(gd1), And(*eqs)))))


def same_terms(a, o):
    """aggregates over different ranges only"""
    js = tuple(fresh("c") for _ in a.fn.agg.binders)
    x, y = a.fn.agg.inst(a.args, js), o.fn.agg.inst(o.args, js)
    return x[0] == y[0] and all(u == v for u, v in zip(x[1] + x[2], y[1] + y[2]))


class Result:
    __slots__ = ("status", "model", "tr", "query", "backend")

    def __init__(self, status, model=None, tr=None, query=None, backend=None):
        self.status = status
        self.model = model
        self.tr = tr
        self.query = query
        self.backend = backend


def run_z3(facts, timeout_ms):
    tr = Z3T()
    s = z3.Solver()
    s.set("timeout", timeout_ms)
    for f in facts:
        s.add(tr.b(f))
    t = time.time()
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    STATS.z3_time += time.time() - t
    STATS.queries += 1
    return r, s, tr


DEPTH = [0]


def prove(hyps, goal, timeout_ms=4000, congr=True, want_model=False):
    """is goal entailed by hyps?  returns Result(status in proved/sat/unknown)"""
    if goal is TRUE:
        return Result("proved", backend="simplifier")
    hs = [h for h in hyps if h is not TRUE]
    hset = set(h for h in hs if isinstance(h, B))
    if FALSE in hset or goal in hset:
        return Result("proved", backend="simplifier")
    key = (goal.id, tuple(sorted(h.id if isinstance(h, B) else h.serial for h in hs)), congr)
    c = _cache.get(key)
    if c is not None and (not want_model or c.status == "proved" or c.model is not None):
        STATS.cache += 1
        return c
    r = _prove(hs, goal, timeout_ms, congr)
    _cache[key] = r
    return r


def _prove(hs, goal, timeout_ms, congr):
    if goal.op == "and":
        # conjuncts separately: smaller queries
        last = None
        for g in goal.args:
            last = prove(hs, g, timeout_ms, congr)
            if last.status != "proved":
                return last
        return last
    q = Query(hs + [Not(goal)])
    q.close()
    first = min(timeout_ms, FIRST)
    r, s, tr = run_z3(q.facts, first)
    if r == z3.unsat:
        STATS.by_z3 += 1
        return Result("proved", backend="z3")
    if congr and DEPTH[0] < 3:
        # try congruence lemmas for aggregates with different bodies
        added = at_goal_indices(q, goal)
        DEPTH[0] += 1
        try:
            for make in LEMMAS:
                for lem in make(hs, goal, q, timeout_ms):
                    q.add(lem)
                    added = True
            # what the goal allows to assume: the other disjuncts that are plain propositions do not hold
            side = [Not(d) for d in goal.args if (d.args[0] if d.op == "not" else d).op == "atom"
                    and (d.args[0] if d.op == "not" else d).args[0].fn.agg is None] if goal.op == "or" else []
            for a, o in q.congruence_pairs()[:40]:
                if a in getattr(goal, "_x", ()):
                    continue
                goal_eq = agg_equal_goal(a, o)
                if goal_eq is FALSE:
                    continue
                lem = Iff(_b("atom", a), _b("atom", o)) if a.fn.sort == "B" else Eq(Poly.atom(a), Poly.atom(o))
                ends = goal_eq if goal_eq.op == "==" else None
                if ends is not None and same_terms(a, o):
                    # up to different ends: nothing to prove but that these are equal
                    q.add(Implies(ends, lem))
                    added = True
                    continue
                deep = congr and any(x.kind == "app" and x.fn.agg is not None for x in walk_atoms([goal_eq]))
                pr = prove(hs + side, goal_eq, min(timeout_ms, 2000), deep)
                if pr.status == "proved":
                    q.add(lem)
                    added = True
            if goal.op == "==" or (goal.op == "not" and False):
                lem = sum_merge(hs, goal, timeout_ms)
                if lem:
                    return Result("proved", backend="sum-extensionality+z3")
            else:
                for lem in sum_groups(hs, goal, timeout_ms):
                    q.add(lem)
                    added = True
            for lem in sum_signs(hs, goal, timeout_ms, q):
                q.add(lem)
                added = True
            for lem in prefix_sums(hs, goal, q, timeout_ms):
                q.add(lem)
                added = True
        finally:
            DEPTH[0] -= 1
        if added:
            q.close(1)
            r, s, tr = run_z3(q.facts, first)
            if r == z3.unsat:
                STATS.by_z3 += 1
                return Result("proved", backend="z3")
    if r == z3.sat:
        return Result("sat", s.model(), tr, q)
    if r == z3.unknown:
        b = run_cvc5(s, timeout_ms) and "cvc5" if timeout_ms <= FIRST else portfolio(s, timeout_ms)
        if b == "z3":
            STATS.by_z3 += 1
        elif b:
            STATS.cvc5_proved += 1
        if b:
            return Result("proved", backend=b)
        STATS.unknown += 1
    return Result("unknown", None, tr, q)


FIRST = 3000
SEEDS = (0, 2, 5, 7, 11, 13)
Z3BIN = next((p for p in ("/opt/veriftools/pyvenv/bin/z3", shutil.which("z3-new") or "") if p and os.path.exists(p)), None)


def portfolio(s, timeout_ms):
    """the same query with other random seeds of z3 and with cvc5, side by side; the first refutation
    counts"""
    text = s.to_smt2()
    sec = max(1, int(timeout_ms / 1000))
    cmd = [("z3", [Z3BIN, "-in", f"smt.random_seed={n}", f"-T:{sec}"], text) for n in SEEDS] if Z3BIN else []
    if shutil.which("cvc5"):
        cmd.append(("cvc5", ["cvc5", "--lang=smt2", f"--tlimit={timeout_ms}", "-q"], "(set-logic ALL)\n" + text))
    t = time.time()
    ps = []
    try:
        for name, c, inp in cmd:
            f = tempfile.TemporaryFile("w+")
            f.write(inp)
            f.seek(0)
            ps.append((name, subprocess.Popen(c, stdin=f, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)))
            f.close()
        todo = list(ps)
        while todo and time.time() - t < sec + 5:
            for x in list(todo):
                if x[1].poll() is not None:
                    todo.remove(x)
                    if x[1].stdout.read().strip().startswith("unsat"):
                        return x[0]
            time.sleep(0.02)
    except OSError:
        return None
    finally:
        for _, p in ps:
            if p.poll() is None:
                p.kill()
            p.wait()
            p.stdout.close()
        STATS.cvc5_time += time.time() - t
    return None


def run_cvc5(s, timeout_ms):
    if not shutil.which("cvc5"):
        return False
    smt = "(set-logic ALL)\n" + s.to_smt2()
    t = time.time()
    try:
        out = subprocess.run(["cvc5", "--lang=smt2", f"--tlimit={timeout_ms}", "-q"], input=smt, capture_output=True, text=True, timeout=timeout_ms / 1000 + 5).stdout
    except Exception:
        out = ""
    STATS.cvc5_time += time.time() - t
    return out.strip().startswith("unsat")


def sum_merge(hs, goal, timeout_ms):
    """goal: D == 0 where D = sum_i c_i * Sum_i + rest; if all sums range over the same
    box, prove the combined body is 0 pointwise and rest == 0"""
    D = goal.args[0]
    groups = {}
    rest = ZERO
    for mo, c in D.m.items():
        ss = [a for a, e in mo if a.kind == "app" and a.fn.agg is not None and a.fn.agg.kind == "sum" and e == 1]
        if not ss:
            rest = rest + Poly({mo: c})
            continue
        a = ss[-1]
        dims = a.fn.agg.inst(a.args)[3]
        co = Poly({tuple((x, e) for x, e in mo if x is not a): c})
        groups.setdefault(tuple(d.key for d in dims), []).append((co, a, dims))
    if not groups or (rest.m and len(rest.m) > 0 and prove(hs, Eq(rest, 0), timeout_ms).status != "proved"):
        return False
    for k, l in groups.items():
        if len(l) < 2:
            return False
        dims = l[0][2]
        js = tuple(fresh("m") for _ in dims)
        tot = ZERO
        for co, a, _ in l:
            gd, (v,), ex, _d = a.fn.agg.inst(a.args, js)
            tot = tot + co * ind_poly(gd) * v
        rg = l[0][1].fn.agg.range_cond(dims, js)
        if prove(list(hs) + [rg], Eq(tot, 0), timeout_ms).status != "proved":
            return False
    return True


def sum_groups(hs, goal, timeout_ms, limit=6):
    """lemmas "a combination of sums over the same box is zero" for the combinations that occur
    in the comparisons of the goal, each proved pointwise"""
    seen, tried = set(), 0
    for D in comparisons([goal]):
        groups = {}
        for mo, c in D.m.items():
            ss = [a for a, e in mo if a.kind == "app" and a.fn.agg is not None and a.fn.agg.kind == "sum" and e == 1]
            if ss:
                dims = ss[-1].fn.agg.inst(ss[-1].args)[3]
                groups.setdefault(tuple(d.key for d in dims), {})[mo] = c
        for g in groups.values():
            e = Poly(g)
            if len(g) < 2 or e.key in seen or len(seen) >= limit:
                continue
            seen.add(e.key)
            if sum_merge(hs, Eq(e, 0), timeout_ms):
                yield Eq(e, 0)


def at_goal_indices(q, goal, limit=24):
    """instances, at the indices of the goal, of what holds for all elements and is only about
    aggregates (which nothing else may mention at these indices)"""
    only = lambda trig: trig and all(f.agg is not None for f, _ in trig)
    idx = [Poly.atom(v) for v in goal_indices(goal)]
    n = len(q.facts)
    if not idx:
        return False
    for fa in list(q.foralls):
        if only(fa.triggers()) and len(idx) ** len(fa.binders) <= limit:
            for at in itertools.product(idx, repeat=len(fa.binders)):
                q.add(fa.inst(at))
    for a in list(q.apps):
        if a.kind == "app" and a.fn.agg is not None and a.fn.agg.kind == "all" and not locals_under(a):
            g = a.fn.agg
            if only(g.info.get("trig") or find_triggers(g.binders, [g.guard, *g.vals])) and len(idx) ** len(g.binders) <= limit:
                for at in itertools.product(idx, repeat=len(g.binders)):
                    gd, (v,), ex, dims = g.inst(a.args, at)
                    q.add(Implies(And(_b("atom", a), g.range_cond(dims, at), gd), v))
    if len(q.facts) == n:
        return False
    q.close(1)
    return True


def sum_signs(hs, goal, timeout_ms, q=None, limit=6):
    """lemmas "the difference of two sums over the same box has a sign", each proved pointwise; then no
    single term is larger than the difference"""
    if DEPTH[0] > 1:
        return
    sums = [a for a in walk_atoms([goal]) if a.kind == "app" and a.fn.agg is not None and a.fn.agg.kind == "sum" and not locals_under(a)]
    combos = []
    for p in comparisons([goal]):
        c, rest = [], {}
        for mo, k in p.m.items():
            at = mo[0][0] if len(mo) == 1 and mo[0][1] == 1 else None
            if at in sums:
                c.append((at, k, 0))
            else:
                rest[mo] = k
        if rest and c:
            c = shifted_sums(c, Poly(rest))
        if c and (len(c) > 2 or rest) and c not in combos:
            combos.append(c)
    combos += [[(x, 1, 0), (y, -1, 0)] for x, y in itertools.combinations(sums, 2)]
    tried = 0
    for c in combos:
        dims = c[0][0].fn.agg.inst(c[0][0].args)[3]
        key = tuple(d.key for d in dims)
        if any(tuple(d.key for d in x.fn.agg.inst(x.args)[3]) != key for x, *_ in c) or tried >= limit:
            continue
        tried += 1
        x = c[0][0]

        def body(js):
            r = P(0)
            for y, k, sh in c:
                r = r + term_at(y, tuple(j + sh for j in js)) * k
            return r
        js = tuple(fresh("m") for _ in dims)
        rng = x.fn.agg.range_cond(dims, js)
        for s in (1, -1):
            if prove(list(hs) + [rng], Le(0, body(js) * s), min(timeout_ms, 1500)).status == "proved":
                d = P(0)
                for y, k, sh in c:
                    d = d + Poly.atom(y) * k * s
                    if sh:
                        d = d + (term_at(y, dims) - term_at(y, (ZERO,))) * k * s
                yield Le(0, d)
                if len(dims) == 1:
                    # at the indices of the goal, and where other sums over these have terms
                    ts = [(Poly.atom(v),) for v in goal_indices(goal)]
                    if q is not None:
                        ts += [skolems(o) for o in q.apps if o.kind == "app" and o.fn.agg is not None and o.fn.agg.kind == "sum"
                               and o.fn.attrs.get("nonneg") and len(o.fn.agg.dims) == 1 and not locals_under(o) and o.fn.agg.inst(o.args)[3] == dims][:6]
                    for t in ts:
                        yield Implies(x.fn.agg.range_cond(dims, t), Le(body(t) * s, d))
                    # zero if and only if all terms are
                    w = fresh("w")
                    yield Or(Eq(d, 0), And(x.fn.agg.range_cond(dims, (w,)), Lt(0, body((w,)) * s)))
                break


def interp_signs(hs, goal, q, timeout_ms, limit=6):
    """what interpolates between values that all have a sign has it as well"""
    if DEPTH[0] > 1:
        return
    for a in walk_atoms([goal]):
        if a.kind == "app" and a.fn.agg is not None and a.fn.agg.kind == "interp" and not locals_under(a) and limit > 0:
            limit -= 1
            j = fresh("n")
            _, (_, v), _, (n,) = a.fn.agg.inst(a.args, (j,))
            for s in (1, -1):
                if prove(list(hs) + [Le(0, j), Lt(j, n)], Le(0, v * s), min(timeout_ms, 1500)).status == "proved":
                    yield Implies(Lt(0, n), Le(0, Poly.atom(a) * s))
                    break


LEMMAS.append(interp_signs)


def term_at(a, at):
    """term of the sum at the index, zero where the guard does not hold"""
    g, (v,), _, _ = a.fn.agg.inst(a.args, at)
    return ind_poly(g) * v


def shifted_sums(c, rest):
    """sums whose index runs from one to the end instead of from zero: the sum of the last term less
    the first one of some of them is the rest"""
    if any(len(a.fn.agg.dims) != 1 for a, *_ in c) or len(c) > 4:
        return None
    n = c[0][0].fn.agg.inst(c[0][0].args)[3]
    ends = [(term_at(a, n) - term_at(a, (ZERO,))) * k for a, k, _ in c]
    for pick in itertools.product((0, 1), repeat=len(c)):
        if any(pick) and sum((e for e, s in zip(ends, pick) if s), P(0)) == rest:
            return [(a, k, s) for (a, k, _), s in zip(c, pick)]
    return None


def prefix_sums(hs, goal, q, timeout_ms, limit=4):
    """sums of the same terms up to different ends: one more term, and the order of their (linear
    combinations') values if the terms have a sign, proved pointwise"""
    if DEPTH[0] > 1:
        return
    j = fresh("p")
    info = {}          # sum -> (identity of its terms, its end, term)

    def of(a):
        if a not in info:
            g, (v,), _, dims = a.fn.agg.inst(a.args, (j,) * len(a.fn.agg.dims)) if len(a.fn.agg.dims) == 1 else (None, (None,), None, None)
            info[a] = None if dims is None else ((ind_poly(g) * v).key, dims[0], ind_poly(g) * v)
        return info[a]
    is_sum = lambda a: a.kind == "app" and a.fn.agg is not None and a.fn.agg.kind == "sum" and not locals_under(a) and of(a) is not None
    sums = [a for a in walk_atoms([goal, *q.facts]) if is_sum(a)]
    ends = {}
    for a in sums:
        k, n, _ = of(a)
        ends.setdefault(k, {}).setdefault(n.key, (n, a))
    ends = {k: v for k, v in ends.items() if len(v) > 1}
    if not ends:
        return
    at = lambda k, n: Poly.atom(ends[k][n.key][1])
    term = lambda k, t: subst(of(next(iter(ends[k].values()))[1])[2], {j.atoms()[0]: t})
    # one more term
    for k, v in ends.items():
        yield from (Implies(Le(n, 0), Eq(Poly.atom(a), 0)) for n, a in list(v.values())[:8])
        for (n, a), (m, b) in itertools.permutations(list(v.values())[:8], 2):
            d = m - n
            if d.is_const() and 1 <= d.cval() <= 2 and d.cval() == int(d.cval()):
                r = P(0)
                for i in range(int(d.cval())):
                    r = r + term(k, n + i)
                yield Implies(Le(0, n), Eq(Poly.atom(b), Poly.atom(a) + r))
    # linear combinations over the same end
    combos = {}
    for p in comparisons([goal, *q.facts]):
        by = {}
        for mo, c in p.m.items():
            a = mo[0][0] if len(mo) == 1 and mo[0][1] == 1 else None
            if a is not None and a in info and info[a] and info[a][0] in ends:
                by.setdefault(info[a][1].key, []).append((info[a][0], c))
        for c in by.values():
            c = sorted(c, key=lambda x: str(x[0]))
            s = c[0][1]
            c = tuple((k, x / s) for k, x in c)
            combos.setdefault(c, None)
    tried = 0
    for c in sorted(combos, key=len, reverse=True):
        common = None
        for k, _ in c:
            common = set(ends[k]) if common is None else common & set(ends[k])
        ns = [ends[c[0][0]][x][0] for x in common][:6]
        if len(ns) < 2 or tried >= limit:
            continue
        tried += 1
        body = P(0)
        for k, x in c:
            body = body + term(k, j) * x
        # everywhere, or up to one end that is the last (best one that the hypotheses know)
        known = {a for p in hs for a in walk_atoms([p.body if isinstance(p, Forall) else p])}
        tops = sorted(ns, key=lambda n: (n.is_const(), sum(a not in known for a in n.atoms()), str(n.key)))[:2]
        for top in (None, *tops):
            rng = [Le(0, j)] if top is None else [Le(0, j), Lt(j, top)]
            s = next((s for s in (1, -1) if prove(list(hs) + rng, Le(0, body * s), min(timeout_ms, 1500)).status == "proved"), None)
            if s is None:
                continue
            val = lambda n: sum((at(k, n) * x for k, x in c), P(0)) * s
            upto = lambda n: TRUE if top is None else Le(n, top)
            for n, m in itertools.permutations(ns, 2):
                yield Implies(And(Le(0, n), Le(n, m), upto(m)), Le(val(n), val(m)))
            for n in ns:
                yield Implies(And(Le(0, n), upto(n)), Le(0, val(n)))
            break


def locals_under(a):
    """bound variables of enclosing aggregates occur in a"""
    return any(v.name.startswith("β") for v in T.free_locals(a))


def goal_indices(goal):
    return [a for a in walk_atoms([goal]) if a.kind == "var" and a.sort == "I" and a.local and not a.name.startswith("β")][:6]


def feasible(hyps, timeout_ms=1500):
    """False only if hyps are contradictory"""
    hs = [h for h in hyps if h is not TRUE]
    if any(h is FALSE for h in hs):
        return False
    key = ("feas", tuple(sorted(h.id if isinstance(h, B) else h.serial for h in hs)))
    c = _cache.get(key)
    if c is not None:
        return c
    q = Query(hs)
    q.close()
    r, s, tr = run_z3(q.facts, timeout_ms)
    res = r != z3.unsat
    _cache[key] = res
    return res
