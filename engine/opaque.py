"""Callees represented by the weakest contract there is: the result is determined by the
arguments.  An argument (array, table, number, function ...) is known by the term of its generic
element, its size and its unit; two calls whose arguments are the same terms have the same
result, about everything else nothing is known beyond what the stand-in states."""
import enum
import inspect

from .terms import *
from .terms import _b
from . import arrays as A
from . import logic as L
from .arrays import Arr, Num, num
from .ctx import ctx
from .symstr import SymStr
from .units import Quantity, mkq, UnitBase

_H = []          # placeholders of element indices
_K = []          # placeholders of variables of enclosing loops
_ids = {}


def _ph(tab, i, prefix, sort="I"):
    while len(tab) <= i:
        tab.append(Poly.atom(Var(f"{prefix}{len(tab)}", sort, local=True)))
    return tab[i]


class Sig:
    def __init__(self, columns=None):
        self.items = []
        self.hyp = []
        self.columns = columns
        self.n = 0
        self.keep = []

    def add(self, x):
        it = self.items.append
        if x is None or isinstance(x, (str, bool)):
            it(repr(x))
        elif isinstance(x, (int, float)):
            self.add(A.asarr(x))
        elif isinstance(x, Poly):
            it(x)
        elif isinstance(x, B):
            it(x)
        elif isinstance(x, Num):
            for v in (x.p, x.nan, x.pinf, x.ninf):
                it(v)
        elif isinstance(x, SymStr):
            for v in x.parts:
                it(v)
        elif isinstance(x, UnitBase):
            it(repr(sorted((k, v.key) for k, v in x.dims.items())))
            it(x.scale)
        elif isinstance(x, Arr):
            self.array(x)
        elif isinstance(x, enum.Enum):
            it(repr(x))
        elif hasattr(x, "opaque_parts"):
            for v in x.opaque_parts:
                self.add(v)
        elif hasattr(x, "cols"):
            if x.fams:
                raise Unsupported("table with symbolic columns as an argument of a replaced callee")
            for c in sorted(x.cols):
                if self.columns is None or c in self.columns:
                    it(c)
                    self.add(x.cols[c])
        elif isinstance(x, (tuple, list)) and not getattr(x, "seg", None):
            it(f"seq{len(x)}")
            for v in x:
                self.add(v)
        elif (hasattr(x, "__dict__") or hasattr(x, "__slots__")) and not callable(x) and not type(x).__module__.startswith("engine"):
            # an instance: what it holds
            it(type(x).__name__)
            for k in sorted({*getattr(x, "__dict__", ()), *getattr(x, "__slots__", ())}):
                if hasattr(x, k):
                    it(k)
                    self.add(getattr(x, k))
        elif callable(x):
            self.keep.append(x)
            it(f"function {id(x)}")
        else:
            raise Unsupported(f"argument of type {type(x).__name__} of a replaced callee")

    def array(self, x):
        un = x.unit_ if isinstance(x, Quantity) else getattr(x, "unit", None)
        self.items.append(f"{x.kind} {len(x.axes)}")
        if un is not None:
            self.add(un)
        for k, a in enumerate(x.axes):
            n = a.const() if a.plain else None
            if n is not None and n <= 4:
                # short axes element by element, however the array is made
                rd = x.reader()
                self.items.append(f"axis {k} of {n}")
                for i in range(n):
                    self.array(Arr(x.axes[:k] + x.axes[k + 1:], lambda j, i=i: rd((*j[:k], (P(i),), *j[k:])), x.kind))
                return
        idx, hyp = [], []
        for a in x.axes:
            pt = []
            for b in a.base:
                self.items.append(b)
                v = _ph(_H, self.n, "σ")
                self.n += 1
                hyp += [Le(0, v), Lt(v, b)]
                pt.append(v)
            g = a.cond(tuple(pt))
            self.items.append(g)
            hyp.append(g)
            idx.append(tuple(pt))
        self.hyp += hyp
        c = ctx()
        c.assume_stack.append(And(*hyp))
        try:
            self.add(x.reader()(tuple(idx)))
        finally:
            c.assume_stack.pop()

    def close(self, name):
        """(identity of the callee with these arguments, the loop variables it depends on)"""
        hs = {p.atoms()[0] for p in _H}
        loc = []
        for x in self.items:
            f = poly_locals(x) if isinstance(x, Poly) else b_locals(x) if isinstance(x, B) else ()
            for a in sorted(f, key=lambda a: a.id):
                if a not in hs and a not in loc:
                    loc.append(a)
        m = {a: _ph(_K, i, "κ") for i, a in enumerate(loc)}
        key = [name]
        for x in self.items:
            y = subst(x, m) if m and not isinstance(x, str) else x
            key.append(y if isinstance(y, str) else (y.key if isinstance(y, Poly) else ("B", y.id)))
        key = tuple(key)
        if key not in _ids:
            _ids[key] = (len(_ids), self.keep)
            _calls[f"{name}#{_ids[key][0]}"] = (name, [subst(x, m) if m and not isinstance(x, str) else x for x in self.items], subst(And(*self.hyp), m))
        return f"{name}#{_ids[key][0]}", [Poly.atom(a) for a in loc]


_fns = {}
_calls = {}      # identity -> (callee, what the result is determined by)
_results = {}    # symbol of a result -> (identity, which one, number of loop variables)


def same_calls(hs, goal, q, timeout_ms, limit=12):
    """lemmas "two calls have the same result", each from proving the arguments equal"""
    by = {}
    for a in q.apps:
        if a.kind == "app" and a.fn in _results and not L.locals_under(a):
            ident, what, n = _results[a.fn]
            by.setdefault((_calls[ident][0], what, len(a.args)), []).append((a, ident, n))
    for l in by.values():
        for i in range(len(l)):
            for j in range(i):
                (a, x, n), (o, y, m) = l[i], l[j]
                if x == y or limit <= 0:
                    continue
                eq = _same_arguments(_calls[x], a.args[:n], _calls[y], o.args[:m])
                if eq is None or len(a.args) - n != len(o.args) - m:
                    continue
                limit -= 1
                if any(L.prove(h, eq, min(timeout_ms, 2000), deep).status == "proved" for h, deep in ((list(hs), True), ([*hs, Not(goal)], False))):
                    same = Iff(_b("atom", a), _b("atom", o)) if a.fn.sort == "B" else Eq(Poly.atom(a), Poly.atom(o))
                    yield Implies(And(*[Eq(s, t) for s, t in zip(a.args[n:], o.args[m:])]), same)


def _same_arguments(one, kx, two, ky):
    """formula that implies that the arguments of the two calls are the same"""
    _, xs, hx = one
    _, ys, hy = two
    if len(xs) != len(ys):
        return None
    at = lambda ks: {_ph(_K, i, "κ").atoms()[0]: t for i, t in enumerate(ks)}
    mx, my = at(kx), at(ky)
    hs = {p.atoms()[0] for p in _H}
    sizes, elements = [], []
    for x, y in zip(xs, ys):
        if isinstance(x, str) or isinstance(y, str):
            if x != y:
                return None
            continue
        if isinstance(x, B) != isinstance(y, B):
            return None
        f = b_locals if isinstance(x, B) else poly_locals
        e = (Iff if isinstance(x, B) else Eq)(subst(x, mx), subst(y, my))
        (elements if (f(x) | f(y)) & hs else sizes).append(e)
    return And(*sizes, Implies(subst(hx, mx), And(*elements)))


L.LEMMAS.append(same_calls)


def elements(ident, what, axes, kind="f", nan=False, inf=False, pos=False, nonneg=False):
    """array of the axes with unknown elements determined by the call"""
    name, loc = ident
    n = len(loc) + sum(len(a.base) for a in axes)

    def fn(tag, sort, **k):
        key = (name, what, tag, sort, n)
        if key not in _fns:
            _fns[key] = Fn(f"{name}.{what}{tag}", n, sort, **k)
            if name in _calls:
                _results[_fns[key]] = (name, (what, tag, sort), len(loc))
        return _fns[key]

    def el(idx):
        t = [*loc, *(x for pt in idx for x in pt)]
        if kind == "b":
            return BApp(fn("", "B"), *t)
        v = app(fn("", {"f": "R", "i": "I"}[kind], pos=pos, nonneg=nonneg or pos), *t)
        nn = BApp(fn("_nan", "B"), *t) if nan else FALSE
        pi = And(Not(nn), BApp(fn("_inf", "B"), *t)) if inf else FALSE
        return Num(v, nn, pi, int=kind == "i")
    return Arr(tuple(axes), el, kind)


def callee(target, result, columns=()):
    """stand-in of a callee.  columns: the table columns it looks at, by argument.  The arguments
    are bound as the genuine function binds them."""
    def make(b):
        name = target.split(":")[1]

        def call(*a, _orig=None, **k):
            v = inspect.signature(_orig).bind(*a, **k)
            v.apply_defaults()
            sig = Sig()
            for n, x in v.arguments.items():
                sig.items.append(n)
                sig.columns = dict(columns).get(n)
                sig.add(x)
            ident = sig.close(name)
            return result(v.arguments, lambda what, axes, **kw: elements(ident, what, axes, **kw))
        call.bound = True
        return call
    return make
