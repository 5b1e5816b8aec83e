"""numpy, as assumed contracts: every function gives the mathematical meaning of the
numpy function over exact reals (nan / inf tracked explicitly).

Part of the trusted base; cross-checked against the real numpy by selfcheck.py."""
import builtins
from fractions import Fraction
import math
import types

from .terms import *
from . import terms as T
from . import logic as L
from . import arrays as A
from .arrays import (Arr, Num, num, asarr, arr0, ax, Axis, AX1, broadcast, bc_reader, unary, n_add, n_sub, n_mul, n_div,
                     n_lt, n_le, n_eq, n_ite, e_ite, as_bool, same, conv, result_kind, scalar_int, IntScalar, SShape,
                     NAN, PINF, NINF, int_term, axes_equal, unify_axis)
from .ctx import ctx, explore, Raised
from . import units as U
from .units import Quantity, mkq, plain, to_unit, unit_of

nan = float("nan")
inf = float("inf")
newaxis = None
pi_ = arr0(Num(A.PI))
ndarray = Arr


class _pi:
    pass


class float64:
    def __new__(cls, x=0.0):
        return array(x, dtype=float).reshape(()) if not isinstance(x, Arr) or not x.axes else array(x, dtype=float)


class float32(float64):
    pass


class longdouble(float64):
    pass


class int64:
    def __new__(cls, x=0):
        return array(x, dtype=int)


class bool_:
    pass


class integer:
    pass


class floating:
    pass


class number:
    pass


generic = number
uint8 = int32 = intp = int64
number.__name__ = "number"
INT64_MIN, INT64_MAX = -2**63, 2**63 - 1


class iinfo:
    def __init__(self, t):
        self.min, self.max = INT64_MIN, INT64_MAX


class finfo:
    def __init__(self, t):
        self.eps = 2.0 ** -52
        self.tiny = 2.0 ** -1022
        self.max = 1.797e308
        self.min = -1.797e308
        self.dtype = A.SDtype("f")


def dtype_kind(d):
    if d is None:
        return "f"
    if isinstance(d, A.SDtype):
        return d.kind
    if d in (float, float64, float32, longdouble, "float", "float64", "f8", "f4", "f"):
        return "f"
    if d in (builtins.int, int64, "int", "int64", "i8"):
        return "i"
    if d in (builtins.bool, bool_, "bool"):
        return "b"
    if d in (object, "O"):
        return "O"
    if d in (complex, "complex"):
        return "c"
    if getattr(d, "__name__", "") in ("float64", "float32", "longdouble"):
        return "f"
    raise Unsupported(f"dtype {d!r}")


def dtype(d):
    return A.SDtype(dtype_kind(d))


# ------------------------------------------------------------------ constructors
def _shape_axes(shape):
    if isinstance(shape, (builtins.int, Arr)):
        shape = (shape,)
    out = []
    for s in shape:
        if getattr(s, "axis_", None) is not None:
            out.append(s.axis_)
        else:
            t = int_term(s)
            if not t.is_const() and not ctx().entails(Le(0, t)):
                if not ctx().fork(Le(0, t)):
                    raise ValueError("negative dimensions are not allowed")
            out.append(ax(t))
    return out


def full(shape, fill_value, dtype=None):
    v = asarr(fill_value)
    axes = _shape_axes(shape)
    kind = v.kind if dtype is None else dtype_kind(dtype)
    A._check_bc(v, axes)
    rd = bc_reader(v, axes)
    r = Arr(axes, lambda i: conv(rd(i), kind) if kind != "b" else as_bool(rd(i)), kind)
    return mkq(r, v.unit_) if isinstance(v, Quantity) else r


def zeros(shape, dtype=float):
    k = dtype_kind(dtype)
    return full(shape, False if k == "b" else 0 if k == "i" else 0.0, dtype)


def ones(shape, dtype=float):
    k = dtype_kind(dtype)
    return full(shape, True if k == "b" else 1 if k == "i" else 1.0, dtype)


def empty(shape, dtype=float):
    f = T.Fn("uninit", len(_shape_axes(shape)), "R")
    axes = _shape_axes(shape)
    return Arr(axes, lambda i: Num(app(f, *[t for pt in i for t in pt])), dtype_kind(dtype))


def _like(x, v, dtype=None):
    x = asarr(x)
    k = x.kind if dtype is None else dtype_kind(dtype)
    e = BC(bool(v)) if k == "b" else Num(P(v), int=(k == "i"))
    return x._like(x.axes, lambda i: e, k)


def zeros_like(x, dtype=None, **k):
    return _like(x, 0, dtype)


def ones_like(x, dtype=None, **k):
    return _like(x, 1, dtype)


def empty_like(x, dtype=None, **k):
    x = asarr(x)
    r = empty(x.shape, "f")
    return mkq(r, x.unit_) if isinstance(x, Quantity) else r


def full_like(x, v, dtype=None, **k):
    x = asarr(x)
    kind = x.kind if dtype is None else dtype_kind(dtype)
    un = unit_of(x)
    v = to_unit(v, un) if un is not None else asarr(v)
    rd = bc_reader(v, x.axes)
    if kind == "i" and v.kind == "f":
        return x._like(x.axes, lambda i: A.n_trunc(rd(i)), "i")
    return x._like(x.axes, lambda i: conv(rd(i), kind), kind)


def array(x, dtype=None, copy=True, ndmin=0, subok=False, **k):
    if isinstance(x, Arr):
        un = x
        r = plain(x) if not subok else x
        if isinstance(x, IntScalar):
            r = Arr((), buf=x.buf)
        if dtype is not None and dtype_kind(dtype) != r.kind:
            r = r.astype(dtype)
        elif copy is True or copy == 1 and copy is not None:
            r = r.copy()
    elif isinstance(x, (list, tuple)) and dtype is not None and isinstance(dtype, list):
        return records(x, dtype)
    else:
        r = asarr(x)
        if dtype is not None and dtype_kind(dtype) != r.kind:
            r = r.astype(dtype)
        if not subok:
            r = plain(r) if isinstance(r, Quantity) and not isinstance(x, (list, tuple)) else r
            if isinstance(r, Quantity) and isinstance(x, (list, tuple)):
                # a list of quantities: numpy strips the unit through the sequence protocol
                r = plain(r)
    while r.ndim < ndmin:
        r = r[None]
    return r


def asarray(x, dtype=None, **k):
    return array(x, dtype=dtype, copy=None)


def asanyarray(x, dtype=None, **k):
    if isinstance(x, Arr):
        if dtype is not None and dtype_kind(dtype) != x.kind:
            return x.astype(dtype)
        if isinstance(x, IntScalar):
            return Arr((), buf=x.buf)
        return x
    r = asarr(x)
    if dtype is not None and dtype_kind(dtype) != r.kind:
        r = r.astype(dtype)
    return r


def atleast_1d(*xs):
    out = [a if a.axes else a.reshape(1) for a in map(asarr, xs)]
    return out[0] if len(out) == 1 else out


def atleast_2d(x):
    x = atleast_1d(x)
    return x if x.ndim >= 2 else x[None]


def arange(start, stop=None, step=1, dtype=None):
    if stop is None:
        start, stop = 0, start
    a, b, s = (num(asarr(v).scalar()) for v in (start, stop, step))
    isint = a.int and b.int and s.int
    if isint and s.p == ONE:
        n = b.p - a.p
        if not n.is_const():
            if not ctx().entails(Le(0, n)):
                if not ctx().fork(Le(0, n)):
                    n = ZERO
        elif n.cval() < 0:
            n = ZERO
        return Arr((ax(n),), lambda i: Num(a.p + i[0][0], int=True), "i")
    # ceil((b-a)/s) = -floor(-(b-a)/s)
    q = n_div(n_sub(b, a), s)
    n = -A.floor_term(-q.p)
    if not ctx().entails(Le(0, n)):
        if not ctx().fork(Le(0, n)):
            n = ZERO
    return Arr((ax(n),), lambda i: Num(a.p + i[0][0] * s.p), "f")


def linspace(start, stop, n=50, num=None, **k):
    n = int_term(n if num is None else num)
    a, b = asarr(start), asarr(stop)
    un = unit_of(a)
    if un is not None:
        b = to_unit(b, un)
        a = plain(a)
    axes = broadcast([a.axes, b.axes])
    ra, rb = bc_reader(a, axes), bc_reader(b, axes)

    def fn(i):
        x, y = A.num(ra(i[1:])), A.num(rb(i[1:]))
        d = n - 1
        if d.is_const() and d.cval() == 0:
            return x
        f = Num(i[0][0] * recip(d)) if True else None
        return n_add(x, n_mul(f, n_sub(y, x)))
    r = Arr((ax(n),) + tuple(axes), fn, "f")
    return mkq(r, un) if un is not None else r


def identity_fn(n):
    raise Unsupported("identity")


def meshgrid(*xs, indexing="xy", **k):
    if builtins.any(isinstance(x, Quantity) for x in xs):
        pass
    xs = [asarr(x) for x in xs]
    n = len(xs)
    if n != 2:
        raise Unsupported("meshgrid of other than two arrays")
    a, b = [x.reshape(1) if not x.axes else x for x in xs]
    ra, rb = a.reader(), b.reader()
    if indexing == "xy":
        axes = (b.axes[0], a.axes[0])
        return [a._like(axes, lambda i: ra((i[1],))), b._like(axes, lambda i: rb((i[0],)))]
    axes = (a.axes[0], b.axes[0])
    return [a._like(axes, lambda i: ra((i[0],))), b._like(axes, lambda i: rb((i[1],)))]


# ------------------------------------------------------------------ elementwise
def _dimless(x):
    x = asarr(x)
    if isinstance(x, Quantity):
        v = x.to_value(U.one)
        return v, True
    return x, False


def _math1(f):
    def g(x, out=None, where=None):
        if out is not None or where is not None:
            raise Unsupported("out= / where=")
        v, q = _dimless(x)
        r = unary(v, lambda e: f(num(e)), "f")
        return mkq(r, U.one) if q else r
    return g


def _trig(f):
    def g(x, **k):
        x = asarr(x)
        if isinstance(x, Quantity):
            try:
                v = x.to_value(U.rad)
            except U.UnitConversionError:
                if not x.unit_.dimless:
                    raise U.UnitTypeError("Can only apply trigonometric functions to quantities with angle units")
                v = x.to_value(U.one)
            return mkq(unary(v, lambda e: f(num(e)), "f"), U.one)
        return unary(x, lambda e: f(num(e)), "f")
    return g


log = _math1(A.n_log)
exp = _math1(A.n_exp)


def _n_log10(x):
    r = A.n_log(x)
    return Num(r.p / A.LOG10C, r.nan, r.pinf, r.ninf)


log10 = _math1(_n_log10)
cos = _trig(A.n_cos)
sin = _trig(A.n_sin)


def tan(x):
    return sin(x) / cos(x)


def sqrt(x, **k):
    x = asarr(x)
    r = unary(plain(x), lambda e: A.n_sqrt(num(e)), "f")
    if isinstance(x, Quantity):
        h = P(Fraction(1, 2))
        return mkq(r, U.UnitBase({k: v * h for k, v in x.unit_.dims.items()}, A.t_sqrt(x.unit_.scale)))
    return r


def square(x):
    return asarr(x) ** 2


def abs(x, **k):
    x = asarr(x)
    return unary(x, lambda e: A.n_abs(num(e)), x.kind if x.kind != "b" else "i")


absolute = fabs = abs


def arccos(x):
    v, q = _dimless(x)
    def f(e):
        e = num(e)
        bad = ctx().never(Or(e.inf, Lt(1, e.p), Lt(e.p, -1)))
        return Num(app(A.ACOS, e.p), Or(e.nan, bad))
    r = unary(v, f, "f")
    return mkq(r, U.rad) if q else r


_SIGN = None


def sign(x):
    x = asarr(x)
    return unary(plain(x), lambda e: Num(ite(Lt(0, num(e).p), 1, ite(Lt(num(e).p, 0), -1, 0)), num(e).nan), "f")


def floor(x):
    x = asarr(x)
    return unary(x, lambda e: A.n_floor(num(e)), "f")


ROUND = T.Fn("round", 1, "I", argsorts=("R",))
ROUND.axioms.append(lambda x: [Le(app(ROUND, x) * 2, x * 2 + 1), Le(x * 2 - 1, app(ROUND, x) * 2)])


def round(x, decimals=0, **k):
    if decimals != 0:
        raise Unsupported("round to decimals")
    x = asarr(x)
    return unary(x, lambda e: num(e) if num(e).int else Num(app(ROUND, num(e).p), num(e).nan, num(e).pinf, num(e).ninf), x.kind)


around = rint = round


def isnan(x, **k):
    x = plain(asarr(x))
    if x.kind in "sO":
        raise TypeError("isnan not supported")
    return unary(x, lambda e: FALSE if isinstance(e, B) else num(e).nan, "b")


def isfinite(x, **k):
    x = plain(asarr(x))
    return unary(x, lambda e: TRUE if isinstance(e, B) else num(e).fin, "b")


def isinf(x, **k):
    x = plain(asarr(x))
    return unary(x, lambda e: FALSE if isinstance(e, B) else num(e).inf, "b")


BIGF = Poly.const(Fraction(1.7976931348623157e308))


def nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    x = asarr(x)
    un = unit_of(x)

    def cv(v, d):
        if v is None:
            return Num(d)
        return num((to_unit(v, un) if un is not None else asarr(v)).scalar())
    vn = cv(nan, ZERO)
    vp = cv(posinf, BIGF)
    vm = cv(neginf, -BIGF)

    def f(e):
        e = num(e)
        if not e.flagged:
            return e
        r = Num(e.p)
        r = n_ite(ctx().never(e.nan), vn, r)
        r = n_ite(ctx().never(e.pinf), vp, r)
        r = n_ite(ctx().never(e.ninf), vm, r)
        return r
    r = unary(x, f, x.kind)
    if copy is False:
        x[...] = r
        return x
    return r


def _bin(op):
    def g(x, y, out=None, where=None, **k):
        r = A.binop(op, x, y)
        if where is not None:
            w = asarr(where)
            axes = broadcast([r.axes, w.axes])
            base = asarr(out) if out is not None else empty([A.dim_value(a) for a in axes])
            rr, rw, rb = bc_reader(r, axes), bc_reader(w, axes), bc_reader(base, axes)
            # operands outside `where` are not evaluated

            def fn(i):
                c = as_bool(rw(i))
                if c is FALSE:
                    return rb(i)
                ctx().assume_stack.append(c)
                try:
                    v = rr(i)
                finally:
                    ctx().assume_stack.pop()
                v = restrict(v, c)
                return e_ite(c, v, rb(i))
            res = r._like(axes, fn, r.kind)
            if out is not None:
                out[...] = res
                return out
            return res
        if out is not None:
            out[...] = r
            return out
        return r
    return g


def restrict(e, c):
    """simplify an element knowing c"""
    if isinstance(e, Num):
        def sb(b):
            return T.assume(b, c, True)

        def sp(p):
            for a in list(p.atoms()):
                if a.kind == "ind":
                    nb = T.assume(a.b, c, True)
                    if nb is TRUE or nb is FALSE:
                        p = T.subst_ind(p, a, nb is TRUE)
            return p
        return Num(sp(e.p), sb(e.nan), sb(e.pinf), sb(e.ninf), e.int)
    if isinstance(e, B):
        return T.assume(e, c, True)
    return e


add = _bin("add")
subtract = _bin("sub")
multiply = _bin("mul")
divide = true_divide = _bin("div")
floor_divide = _bin("floordiv")
power = float_power = _bin("pow")
mod = remainder = _bin("mod")
less = _bin("lt")
less_equal = _bin("le")
equal = _bin("eq")
not_equal = _bin("ne")


def greater(x, y, **k):
    return A.binop("lt", y, x)


def greater_equal(x, y, **k):
    return A.binop("le", y, x)


def negative(x):
    return -asarr(x)


def _tobool(x):
    x = asarr(x)
    return x if x.kind == "b" else x.astype(bool)


def logical_and(x, y, **k):
    return A.binop("and", _tobool(x), _tobool(y))


def logical_or(x, y, **k):
    return A.binop("or", _tobool(x), _tobool(y))


def logical_xor(x, y, **k):
    return A.binop("xor", _tobool(x), _tobool(y))


def logical_not(x, **k):
    return ~_tobool(x)


bitwise_and = _bin("and")
bitwise_or = _bin("or")


def invert(x):
    return ~asarr(x)


def _common(x, y):
    x, y = asarr(x), asarr(y)
    un = unit_of(x) or unit_of(y)
    if un is not None:
        x, y = to_unit(x, un), to_unit(y, un)
    return x, y, un


def _q(r, un):
    return mkq(r, un) if un is not None else r


def where(c, x=None, y=None):
    if x is None:
        return nonzero(c)
    c = asarr(c)
    x, y, un = _common(x, y)
    axes = broadcast([c.axes, x.axes, y.axes])
    rc, rx, ry = bc_reader(c, axes), bc_reader(x, axes), bc_reader(y, axes)
    kind = result_kind(x.kind, y.kind)

    def fn(i):
        b = as_bool(rc(i))
        if b is TRUE:
            return conv(rx(i), kind)
        if b is FALSE:
            return conv(ry(i), kind)
        ctx().assume_stack.append(b)
        try:
            vx = restrict(conv(rx(i), kind), b)
        finally:
            ctx().assume_stack.pop()
        ctx().assume_stack.append(Not(b))
        try:
            vy = restrict(conv(ry(i), kind), Not(b))
        finally:
            ctx().assume_stack.pop()
        return e_ite(b, vx, vy)
    return _q(Arr(axes, fn, kind), un)


def _minmax(kind):
    def g(x, y, **k):
        x, y, un = _common(x, y)
        axes = broadcast([x.axes, y.axes])
        rx, ry = bc_reader(x, axes), bc_reader(y, axes)

        def fn(i):
            a, b = num(rx(i)), num(ry(i))
            c = n_lt(a, b) if kind == "min" else n_lt(b, a)
            r = n_ite(Or(c, a.nan), a, b)
            return r
        return _q(Arr(axes, fn, result_kind(x.kind, y.kind)), un)
    return g


minimum = _minmax("min")
maximum = _minmax("max")


def clip(x, a_min=None, a_max=None, out=None, min=None, max=None, **k):
    a_min = min if a_min is None else a_min
    a_max = max if a_max is None else a_max
    r = asarr(x)
    if a_min is not None:
        r = maximum(r, a_min)
    if a_max is not None:
        r = minimum(r, a_max)
    if out is not None:
        out[...] = r
        return out
    if a_min is None and a_max is None:
        return r.copy()
    return r


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b, un = _common(a, b)
    if un is not None and not un.dimless:
        atol = 0 if atol == 1e-8 else atol
    rt, at = num(float(rtol)), num(float(atol))
    axes = broadcast([a.axes, b.axes])
    ra, rb = bc_reader(a, axes), bc_reader(b, axes)

    def fn(i):
        x, y = num(ra(i)), num(rb(i))
        d = A.n_abs(n_sub(x, y))
        t = n_add(at, n_mul(rt, A.n_abs(y)))
        if not (x.flagged or y.flagged):
            return n_le(d, t)
        return Or(And(x.fin, y.fin, Le(A.n_abs(Num(x.p - y.p)).p, n_add(at, n_mul(rt, A.n_abs(Num(y.p)))).p)),
                  And(x.pinf, y.pinf), And(x.ninf, y.ninf))
    return Arr(axes, fn, "b")


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return all(isclose(a, b, rtol, atol, equal_nan))


def array_equal(a, b, equal_nan=False):
    a, b = asarr(a), asarr(b)
    if isinstance(a, Quantity) or isinstance(b, Quantity):
        # units that do not convert into each other: not equal
        try:
            b = U.to_unit(b, a.unit_) if isinstance(a, Quantity) else U.to_unit(b, U.as_unit(""))
        except U.UnitConversionError:
            return False
        a = plain(a)
    if a.ndim != b.ndim:
        return False
    for x, y in zip(a.axes, b.axes):
        if axes_equal(x, y) is not True and not ctx().fork(Eq(x.size, y.size)):
            return False
    r = a == b
    if equal_nan:
        r = r | (isnan(a) & isnan(b))
    return all(r)


# ------------------------------------------------------------------ reductions
def _norm_axes(x, axis):
    n = x.ndim
    if axis is None:
        return list(range(n))
    if not isinstance(axis, (tuple, list)):
        axis = (axis,)
    out = []
    for k in axis:
        k = k if isinstance(k, builtins.int) else builtins.int(k)
        if k < -n or k >= n:
            raise ValueError(f"axis {k} is out of bounds for array of dimension {n}")
        out.append(k % n)
    return sorted(out)


def _reduce(x, axis, keepdims, f, kind, rd=None):
    """f(dims, getter(*z), guard(*z)) -> element"""
    red = _norm_axes(x, axis)
    rd = rd or x.reader()
    rax = [x.axes[k] for k in red]
    dims = [d for a in rax for d in a.base]
    keep = [k for k in range(x.ndim) if k not in red]
    out_axes = [AX1 if k in red else x.axes[k] for k in range(x.ndim)] if keepdims else [x.axes[k] for k in keep]
    guarded = builtins.any(a.guard is not None for a in rax)

    def fn(i):
        def index(z):
            pts, k = [], 0
            for a in rax:
                pts.append(tuple(z[k:k + len(a.base)]))
                k += len(a.base)
            full = [None] * x.ndim
            for a, p in zip(red, pts):
                full[a] = p
            if keepdims:
                for k2 in keep:
                    full[k2] = i[k2]
            else:
                for k2, p in zip(keep, i):
                    full[k2] = p
            return pts, tuple(full)

        def guard(*z):
            pts, _ = index(z)
            return And(*[a.cond(p) for a, p in zip(rax, pts)])

        def get(*z):
            pts, full = index(z)
            if guarded:
                g = And(*[a.cond(p) for a, p in zip(rax, pts)])
                ctx().assume_stack.append(g)
                try:
                    return restrict(rd(full), g)
                finally:
                    ctx().assume_stack.pop()
            return rd(full)
        return f(dims, get, guard if guarded else None)
    return x._like(out_axes, fn, kind)


def _flags(dims, get, guard):
    """does any element carry a flag? returns conditions (nan, pinf, ninf)"""
    def anyf(sel):
        # cheap syntactic test first
        probe = L._fresh_box("p", [d for d in dims])
        e = num(get(*probe))
        s = sel(e)
        if s is FALSE:
            return FALSE
        return ctx().never(L.bany(dims, lambda *z: sel(num(get(*z))), guard))
    if not dims:
        e = num(get())
        return e.nan, e.pinf, e.ninf
    return anyf(lambda e: e.nan), anyf(lambda e: e.pinf), anyf(lambda e: e.ninf)


def sum(x, axis=None, dtype=None, out=None, keepdims=False, where=None, initial=None, **k):
    x = asarr(x)
    if where is not None or initial is not None:
        raise Unsupported("sum with where / initial")

    def f(dims, get, guard):
        nn, pi, ni = _flags(dims, get, guard)
        p = L.bsum(dims, lambda *z: num(get(*z)).p, guard)
        if nn is FALSE and pi is FALSE and ni is FALSE:
            return Num(p, int=x.kind != "f")
        nn = Or(nn, And(pi, ni))
        return Num(p, nn, And(Not(nn), pi), And(Not(nn), ni))
    return _reduce(x, axis, keepdims, f, "f" if x.kind == "f" else "i")


def nansum(x, axis=None, **k):
    return sum(nan_to_num(x), axis=axis)


def count_nonzero(x, axis=None):
    x = asarr(x)
    return sum(unary(plain(x), lambda e: as_bool(e), "b"), axis=axis)


def prod(x, axis=None, **k):
    x = asarr(x)
    if x.kind != "i" and not builtins.all(a.const() is not None for a in x.axes):
        raise Unsupported("product over a symbolic range")
    r = None
    for e in x.reshape(-1):
        r = e if r is None else r * e
    return r if r is not None else asarr(1)


def all(x, axis=None, keepdims=False, **k):
    x = _tobool(x)

    def f(dims, get, guard):
        return L.ball(dims, lambda *z: as_bool(get(*z)), guard)
    return _reduce(x, axis, keepdims, f, "b")


def any(x, axis=None, keepdims=False, **k):
    x = _tobool(x)

    def f(dims, get, guard):
        return L.bany(dims, lambda *z: as_bool(get(*z)), guard)
    return _reduce(x, axis, keepdims, f, "b")


def _count(dims, guard):
    return L.bsum(dims, lambda *z: ONE, guard)


def mean(x, axis=None, keepdims=False, **k):
    x = asarr(x)
    s = sum(x, axis=axis, keepdims=keepdims)
    n = ONE
    for a in _norm_axes(x, axis):
        n = n * x.axes[a].size
    return s / arr0(Num(n, int=True))


def average(x, axis=None, weights=None, **k):
    if weights is None:
        return mean(x, axis)
    w = asarr(weights)
    x = asarr(x)
    if w.ndim != x.ndim:
        raise Unsupported("average with broadcast weights")
    scl = sum(w, axis=axis)
    zero = scl == 0
    if ctx().fork(as_bool(any(zero).scalar())):
        raise ZeroDivisionError("Weights sum to zero, can't be normalized")
    # the averages under their own names: they often go on into further sums
    r = sum(x * w, axis=axis) / scl
    rd = r.reader()

    # of values and weights that are nowhere negative it is not negative
    at = tuple(a.vars("m") for a in x.axes)
    v, u = num(x.reader()(at)), num(w.reader()(at))
    inside = And(*[a.cond(p) for a, p in zip(x.axes, at)])
    sign = not v.flagged and not u.flagged and ctx().entails(Implies(inside, And(Le(0, v.p), Le(0, u.p))))

    def named(i):
        v = num(rd(i))
        return v if v.flagged else Num(L.let(v.p, nonneg=sign))
    return r._like(r.axes, named)


def _ord(kind, nanaware):
    def g(x, axis=None, keepdims=False, **k):
        x = asarr(x)

        def f(dims, get, guard):
            ne = L.bany(dims, lambda *z: TRUE, guard)
            if ne is not TRUE and not ctx().entails(ne):
                if not ctx().fork(ne):
                    raise ValueError("zero-size array to reduction operation which has no identity")

            def val(*z):
                e = num(get(*z))
                if e.inf is not FALSE and ctx().never(e.inf) is not FALSE:
                    raise Unsupported("min/max with infinities")
                return e
            nn, _, _ = _flags(dims, get, guard)
            if nn is not FALSE:
                g2 = (lambda *z: And(guard(*z) if guard else TRUE, Not(num(get(*z)).nan)))
                if nanaware:
                    p = L.order_stat(kind, dims, lambda *z: val(*z).p, g2)
                    return Num(p, L.ball(dims, lambda *z: num(get(*z)).nan, guard))
                p = L.order_stat(kind, dims, lambda *z: val(*z).p, guard)
                return Num(p, nn)
            return Num(L.order_stat(kind, dims, lambda *z: val(*z).p, guard), int=x.kind == "i")
        red = _norm_axes(x, axis)
        # emptiness may be decided before the elementwise evaluation
        r = _reduce(x, axis, keepdims, f, x.kind)
        if not r.axes:
            r.scalar()
        return r
    return g


amin = min = _ord("min", False)
amax = max = _ord("max", False)
nanmin = _ord("min", True)
nanmax = _ord("max", True)


def argext(kind, nanaware):
    def g(x, axis=None, **k):
        x = plain(asarr(x))
        if axis is None and x.ndim != 1:
            raise Unsupported("arg-extremum over several axes")

        def f(dims, get, guard):
            if len(dims) != 1:
                raise Unsupported("arg-extremum over a flattened axis")
            return Num(arg_term(kind, dims, get, guard, nanaware), int=True)
        ne = And(*[Lt(0, x.axes[a].size) for a in _norm_axes(x, axis)])
        if not ctx().fork(ne):
            raise ValueError("attempt to get argmin of an empty sequence")
        if nanaware:
            rd = x.reader()
            if x.ndim == 1:
                allnan = L.ball(list(x.axes[0].base), lambda *z: num(rd((tuple(z),))).nan)
                if ctx().fork(allnan):
                    raise ValueError("All-NaN slice encountered")
        return _reduce(x, axis, False, f, "i")
    return g


def arg_term(kind, dims, get, guard, nanaware):
    """index of the first minimum / maximum.  Values: (p, is +inf, is -inf, is nan)"""
    j = L._fresh_box("a", dims)
    e = get(*j)
    e = num(e)
    g = TRUE if guard is None else guard(*j)
    if kind == "argmax":
        e = A.n_neg(e)
    if not nanaware and e.nan is not FALSE:
        raise Unsupported("argmin with nan")
    bs = [v.atoms()[0] for v in j]
    v = monotone(e.p) if not e.flagged else e.p
    a = L.agg("argmin", bs, dims, And(g, Not(e.nan)), (v, e.pinf, e.ninf), sort="I")
    return Poly.atom(a)


def _sort_pair(fn, s, t):
    """facts about two places s, t in the sorted order"""
    g = fn.agg
    (i,), (j,) = g.inst(s)[2], g.inst(t)[2]
    free = poly_locals(g.extras[0])
    eq = [Eq(x, y) for p, x, y in zip(g.params, s, t) if p not in free]
    if builtins.any(p in free for v in g.vals for p in poly_locals(v)):
        return []
    a, b = app(fn, *s), app(fn, *t)
    n = g.inst(s)[3][0]
    ok = And(*eq, Le(0, i), Lt(i, j), Lt(j, n))
    return [Implies(ok, And(L.lex_le(g.inst(s, (a,))[1], g.inst(t, (b,))[1]), Not(Eq(a, b))))]


def sort_index(n, keys, i):
    """the index of the element at place i in ascending order of the keys"""
    j = L._fresh_box("s", [n])
    es = [num(key(*j)) for key in keys]
    if builtins.any(e.flagged for e in es):
        raise Unsupported("sorting nan or infinite values")
    # one function of the place, whatever the place is
    place = L._fresh_box("p", [n])[0]
    a = L.agg("asort", [j[0].atoms()[0]], [n], TRUE, tuple(monotone(e.p) for e in es), (place,), sort="I")
    L.SORTED[0] = True
    if not a.fn.pair_axioms:
        a.fn.pair_axioms.append(lambda s, t: _sort_pair(a.fn, s, t))
    return subst(Poly.atom(a), {place.atoms()[0]: P(i)})


class Records:
    """structured array"""
    ndim = 1

    def __init__(self, names, columns):
        self.cols = dict(zip(names, columns))
        self.dtype = Rec(tuple(names))
        self.axes = columns[0].axes

    def __getitem__(self, k):
        if isinstance(k, str):
            return self.cols[k]
        raise Unsupported("element of a structured array")

    def __len__(self):
        return len(self.cols["" if not self.cols else next(iter(self.cols))])

    @property
    def shape(self):
        return next(iter(self.cols.values())).shape

    size = property(lambda self: next(iter(self.cols.values())).size)

    def argsort(self, axis=-1, kind=None, order=None, stable=None):
        return argsort(self, axis, kind, order, stable)


class Rec:
    def __init__(self, names):
        self.names = names


def records(x, dtype):
    if not builtins.all(isinstance(d, tuple) and len(d) == 2 and isinstance(d[0], str) for d in dtype):
        raise Unsupported("structured array")
    r = asarr(x)
    if r.ndim != 2 or r.axes[1].const() != len(dtype):
        raise Unsupported("structured array")
    return Records([d[0] for d in dtype], [r[:, k].astype(d[1]) for k, d in enumerate(dtype)])


def _sorting(keys):
    axes = keys[0].axes
    if len(axes) != 1 or not axes[0].plain or builtins.any(axes_equal(axes[0], k.axes[0]) is not True for k in keys):
        raise Unsupported("sorting these keys")
    rs = [k.reader() for k in keys]
    n = axes[0].size
    return Arr(axes, lambda i: Num(sort_index(n, [lambda j, rd=rd: rd(((j,),)) for rd in rs], i[0][0]), int=True), "i")


def lexsort(keys, axis=-1):
    return _sorting([plain(asarr(k)) for k in keys][::-1])


def argsort(x, axis=-1, kind=None, order=None, stable=None):
    if isinstance(x, Records):
        first = [] if order is None else [order] if isinstance(order, str) else list(order)
        return _sorting([x.cols[k] for k in first + [k for k in x.cols if k not in first]])
    x = plain(asarr(x))
    if order is not None:
        raise ValueError("Cannot specify order when the array has no fields.")
    if axis not in (-1, x.ndim - 1) or not x.axes or not x.axes[-1].plain:
        raise Unsupported("argsort along this axis")
    rd = x.reader()
    n = x.axes[-1].size
    return Arr(x.axes, lambda i: Num(sort_index(n, [lambda j: rd((*i[:-1], (j,)))], i[-1][0]), int=True), "i")


def can_cast(a, b, casting="safe"):
    ka, kb = (d.kind if isinstance(d, A.SDtype) else dtype_kind(d) for d in (a, b))
    if casting != "safe":
        raise Unsupported("can_cast with casting")
    return "bifcO".index(ka) <= "bifcO".index(kb)


argmin = argext("argmin", False)
argmax = argext("argmax", False)
nanargmin = argext("argmin", True)
nanargmax = argext("argmax", True)


def sort(x, axis=-1, kind=None, order=None, stable=None):
    x = plain(asarr(x))
    if axis is None or order is not None:
        raise Unsupported("sort of a flattened array")
    axis = axis % x.ndim
    if not x.axes[axis].plain:
        raise Unsupported("sort along a masked axis")
    rd = x.reader()
    at = lambda i, j: num(rd((*i[:axis], (j,), *i[axis + 1:])))
    if x.axes[axis].const() == 2:
        def two(i):
            a, b = at(i, P(0)), at(i, P(1))
            if a.flagged or b.flagged:
                raise Unsupported("sorting nan or infinite values")
            return Num(ite(Iff(Eq(i[axis][0], 0), Le(a.p, b.p)), a.p, b.p), int=a.int and b.int)
        return Arr(x.axes, two, x.kind)
    n = x.axes[axis].size
    return Arr(x.axes, lambda i: at(i, sort_index(n, [lambda j: at(i, j)], i[axis][0])), x.kind)


UNIQUE = []


def unique(x, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    """the rows of a matrix, each once, in lexicographic order: place u has row_of(u), row f is at place_of(f)"""
    from . import geometry, opaque
    x = plain(asarr(x))
    k = x.axes[1].const() if x.ndim == 2 else None
    if return_index or return_inverse or return_counts or axis != 0 or k is None or not x.axes[0].plain:
        raise Unsupported("unique of these")
    n = x.axes[0].size
    sig = opaque.Sig()
    sig.add(x)
    name, loc = sig.close("unique")
    if loc:
        raise Unsupported("unique inside of a loop")
    rd = x.reader()

    def row(f):
        e = [num(rd(((P(f),), (P(c),)))) for c in range(k)]
        if builtins.any(v.flagged for v in e):
            raise Unsupported("unique with nan")
        return [v.p for v in e]
    fn = geometry._fn
    count, row_of, place_of = fn(name + ".count", 0, "I"), fn(name + ".row", 1, "I"), fn(name + ".place", 1, "I")
    m = app(count)
    if not row_of.axioms:
        count.axioms.append(lambda: [Le(0, m), Le(m, n)])
        row_of.axioms.append(lambda u: [Implies(And(Le(0, u), Lt(u, m)), And(Le(0, app(row_of, u)), Lt(app(row_of, u), n)))])
        row_of.pair_axioms.append(lambda s, t: [Implies(And(Le(0, s[0]), Lt(s[0], t[0]), Lt(t[0], m)),
            And(L.lex_le(row(app(row_of, *s)), row(app(row_of, *t))), Not(And(*[Eq(a, b) for a, b in zip(row(app(row_of, *s)), row(app(row_of, *t)))]))))])
        place_of.axioms.append(lambda f: [Implies(And(Le(0, f), Lt(f, n)), And(Le(0, app(place_of, f)), Lt(app(place_of, f), m),
            *[Eq(a, b) for a, b in zip(row(app(row_of, app(place_of, f))), row(f))]))])
    UNIQUE.append((lambda u: app(row_of, u), lambda f: app(place_of, f)))
    return Arr((ax(m), x.axes[1]), lambda i: rd(((app(row_of, i[0][0]),), i[1])), x.kind)


def cumsum(x, axis=None, **k):
    x = asarr(x)
    if axis is None:
        if x.ndim != 1:
            raise Unsupported("cumsum over a flattened array")
        axis = 0
    axis = axis % x.ndim
    rd = x.reader()
    a = x.axes[axis]
    if not a.plain:
        raise Unsupported("cumsum over a masked axis")

    def fn(i):
        t = i[axis][0]
        dims = [t + 1]

        def get(z):
            return num(rd(i[:axis] + ((z,),) + i[axis + 1:]))
        nn, pi, ni = _flags(dims, get, None)
        p = L.bsum(dims, lambda z: get(z).p)
        nn = Or(nn, And(pi, ni))
        return Num(p, nn, And(Not(nn), pi), And(Not(nn), ni), int=x.kind != "f")
    return x._like(x.axes, fn, "f" if x.kind == "f" else "i")


def diff(x, n=1, axis=-1, prepend=None, append=None):
    if n != 1:
        raise Unsupported("diff of order > 1")
    x = asarr(x)
    if prepend is not None or append is not None:
        raise Unsupported("diff with prepend/append")
    axis = axis % x.ndim
    hi = tuple(slice(1, None) if k == axis else slice(None) for k in range(x.ndim))
    lo = tuple(slice(None, -1) if k == axis else slice(None) for k in range(x.ndim))
    return x[hi] - x[lo]


# ------------------------------------------------------------------ shapes
def reshape(x, shape, **k):
    x = asarr(x)
    if isinstance(shape, (builtins.int, Arr)):
        shape = (shape,)
    shape = list(shape)
    if len(shape) == 1 and isinstance(shape[0], builtins.int) and shape[0] == -1:
        if x.ndim == 1:
            return x
        if builtins.all(a.const() is not None and a.plain for a in x.axes):
            pass
        else:
            rd = x.reader()
            axis, sizes = A.mask_axis(ones_like(x, bool) if False else _true_like(x), x.axes)
            axis = Axis(axis.base, None if builtins.all(a.guard is None for a in x.axes) else axis.guard)

            def fn(i):
                pts, q = [], 0
                for s in sizes:
                    pts.append(tuple(i[0][q:q + s]))
                    q += s
                return rd(tuple(pts))
            return x._like((axis,), fn)
    # split the leading/trailing ones and matching axes
    dims = []
    neg = None
    for j, s in enumerate(shape):
        if isinstance(s, builtins.int) and s == -1:
            neg = j
            dims.append(None)
        elif getattr(s, "axis_", None) is not None:
            dims.append(s.axis_)
        else:
            dims.append(ax(int_term(s)))
    src = [(j, a) for j, a in enumerate(x.axes) if not a.is1]
    # flattened axis reshaped back
    tgt = [(j, a) for j, a in enumerate(dims) if a is None or not a.is1]
    if neg is not None:
        rest = [a for a in dims if a is not None and not a.is1]
        # every named dimension must match a source axis; -1 takes what is between
        if len(src) == len(tgt):
            dims[neg] = src[[j for j, _ in tgt].index(neg)][1]
        elif len(tgt) == len(src) + 1:
            dims[neg] = AX1
            tgt = [(j, a) for j, a in enumerate(dims) if not a.is1]
        elif builtins.all(a.const() is not None for _, a in src) and builtins.all(a.const() is not None for a in rest):
            n = 1
            for _, a in src:
                n *= a.const()
            for a in rest:
                n //= a.const()
            dims[neg] = ax(n)
        else:
            # merge: leading / trailing axes match one to one, the middle is flattened
            return _merge_reshape(x, dims, neg)
        tgt = [(j, a) for j, a in enumerate(dims) if not a.is1]
    if len(src) != len(tgt):
        one = lambda a: a.plain and a.const() is None and ctx().entails(Eq(a.size, 1))
        src, tgt = [v for v in src if not one(v[1])], [v for v in tgt if not one(v[1])]
    if len(src) == len(tgt) and builtins.all(axes_equal(a, b) is True or (a.plain and b.plain and ctx().entails(Eq(a.size, b.size))) for (_, a), (_, b) in zip(src, tgt)):
        m = {j: i for (j, _), (i, _) in zip(src, tgt)}
        view = []
        for kd, a, o in x._vmap():
            if kd == "fix":
                view.append((kd, a, o))
            elif a in m:
                view.append(("ax", m[a], o))
            else:
                z = tuple(ZERO for _ in x.axes[a].base)
                view.append(("fix", (z[0] + o,) if o is not None else z, None))
        return x.with_view([dims[j] if j not in [t for t, _ in tgt] else x.axes[[s for s, _ in src][[t for t, _ in tgt].index(j)]] for j in range(len(dims))], view)
    # flattened axes expanded back
    base_src = [b for a in x.axes for b in a.base if b != ONE]
    base_tgt = [b for a in dims for b in a.base if b != ONE]
    if len(base_src) == len(base_tgt) and builtins.all(p == q or ctx().entails(Eq(p, q)) for p, q in zip(base_src, base_tgt)) \
            and builtins.all(a.guard is None for a in list(x.axes) + dims):
        rd = x.reader()

        def fn(i):
            flat = [t for a, pt in zip(dims, i) for b, t in zip(a.base, pt) if b != ONE]
            out, q = [], 0
            for a in x.axes:
                pt = []
                for b in a.base:
                    if b == ONE:
                        pt.append(ZERO)
                    else:
                        pt.append(flat[q])
                        q += 1
                out.append(tuple(pt))
            return rd(tuple(out))
        return x._like(dims, fn)
    cs = [a.const() for a in x.axes]
    ct = [a.const() for a in dims]
    if builtins.all(c is not None for c in cs) and builtins.all(c is not None for c in ct):
        ns = nt = 1
        for c in cs:
            ns *= c
        for c in ct:
            nt *= c
        if ns != nt:
            raise ValueError(f"cannot reshape array of size {ns} into shape {tuple(ct)}")
        rd = x.reader()

        def fn(i):
            if not builtins.all(pt[0].is_const() for pt in i):
                raise Unsupported("reshape read at a symbolic index")
            f = 0
            for pt, c in zip(i, ct):
                f = f * c + builtins.int(pt[0].cval())
            out = []
            for c in reversed(cs):
                out.append((P(f % c),))
                f //= c
            return rd(tuple(reversed(out)))
        return x._like(dims, fn)
    s0 = ONE
    for a in x.axes:
        s0 = s0 * a.size
    s1 = ONE
    for a in dims:
        s1 = s1 * a.size
    if ctx().entails(Ne(s0, s1)):
        raise ValueError("cannot reshape array")
    raise Unsupported(f"reshape of {x.axes} into {dims}")


def _true_like(x):
    return Arr(x.axes, lambda i: TRUE, "b")


def _merge_reshape(x, dims, neg):
    axes = list(x.axes)
    lead = dims[:neg]
    trail = dims[neg + 1:]
    axes = [a for a in axes]
    if len(axes) < len(lead) + len(trail):
        raise Unsupported("reshape")
    for a, b in zip(axes, lead):
        if axes_equal(a, b) is not True and not ctx().entails(Eq(a.size, b.size)):
            raise Unsupported("reshape")
    if trail:
        for a, b in zip(axes[-len(trail):], trail):
            if axes_equal(a, b) is not True and not ctx().entails(Eq(a.size, b.size)):
                raise Unsupported("reshape")
    mid = axes[len(lead):len(axes) - len(trail)]
    if builtins.any(a.guard is not None for a in mid):
        raise Unsupported("reshape of masked axes")
    sizes = [len(a.base) for a in mid]
    m = Axis([b for a in mid for b in a.base])
    rd = x.reader()
    nl = len(lead)

    def fn(i):
        pts, q = [], 0
        for s in sizes:
            pts.append(tuple(i[nl][q:q + s]))
            q += s
        return rd(tuple(i[:nl]) + tuple(pts) + tuple(i[nl + 1:]))
    return x._like(axes[:nl] + [m] + axes[len(axes) - len(trail):], fn)


def ravel(x):
    return asarr(x).reshape(-1)


def squeeze(x, axis=None):
    return asarr(x).squeeze(axis)


def expand_dims(x, axis):
    x = asarr(x)
    n = x.ndim + 1
    axis = axis % n
    ix = [slice(None)] * x.ndim
    ix.insert(axis, None)
    return x[tuple(ix)]


def swapaxes(x, a, b):
    return asarr(x).swapaxes(a, b)


def transpose(x, axes=None):
    return asarr(x).transpose(*(axes or ()))


def moveaxis(x, src, dst):
    x = asarr(x)
    n = x.ndim
    perm = [k for k in range(n) if k != src % n]
    perm.insert(dst % n, src % n)
    return x.transpose(*perm)


def broadcast_to(x, shape, **k):
    x = asarr(x)
    axes = _shape_axes(shape)
    A._check_bc(x, axes)
    rd = bc_reader(x, axes)
    return x._like(axes, rd)


def broadcast_arrays(*xs):
    xs = [asarr(x) for x in xs]
    axes = broadcast([x.axes for x in xs])
    return [x._like(axes, bc_reader(x, axes)) for x in xs]


def shape(x):
    return asarr(x).shape


def ndim(x):
    return asarr(x).ndim


def size(x):
    return asarr(x).size


def concatenate(xs, axis=0, **k):
    xs = [asarr(x) for x in xs]
    un = next((unit_of(x) for x in xs if isinstance(x, Quantity)), None)
    if un is not None:
        xs = [to_unit(x, un) for x in xs]
    nd = xs[0].ndim
    if nd == 0:
        raise ValueError("zero-dimensional arrays cannot be concatenated")
    if builtins.any(x.ndim != nd for x in xs):
        raise ValueError("all the input array dimensions must match exactly")
    axis = axis % nd
    axes = []
    for j in range(nd):
        if j == axis:
            t = ZERO
            for x in xs:
                if not x.axes[j].plain:
                    if x.axes[j].is1 or len(xs) == 1:
                        continue
                    raise Unsupported("concatenate masked axes")
                t = t + x.axes[j].size
            axes.append(ax(t))
        else:
            cur = xs[0].axes[j]
            for x in xs[1:]:
                if axes_equal(cur, x.axes[j]) is not True and not ctx().fork(Eq(cur.size, x.axes[j].size)):
                    raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
            axes.append(cur)
    kind = result_kind(*[x.kind for x in xs])
    rds = [x.reader() for x in xs]
    starts = [ZERO]
    for x in xs:
        starts.append(starts[-1] + x.axes[axis].size)

    def fn(i):
        t = i[axis][0]
        r = last = None
        for j in builtins.range(len(xs) - 1, -1, -1):
            n = xs[j].axes[axis].size
            if n.is_const() and n.cval() == 0:
                continue
            c = And(Le(starts[j], t), Lt(t, starts[j + 1]))
            lo = Le(starts[j], t)
            if r is not None:
                c = Lt(t, starts[j + 1])
            c = decide(c)
            if r is not None and c is FALSE:
                continue
            ii = i[:axis] + ((t - starts[j],),) + i[axis + 1:]
            if n == ONE:
                ii = i[:axis] + ((ZERO,),) + i[axis + 1:]
            v = conv(rds[j](ii), kind)
            if r is not None and last is not None and same_at(v, t, last, r):
                # the last element continues the one before: x[:-1] joined with x[-1]
                r, last = v, None
                continue
            last = starts[j] if r is None and n == ONE else None
            r = v if r is None else e_ite(c, v, r)
        return r
    return _q(Arr(axes, fn, kind), un)


def same_at(v, t, at, r):
    """v, as a function of the index term t (an atom plus a constant), is r for t = at"""
    t = P(t)
    if not isinstance(v, Num) or not isinstance(r, Num):
        return False
    for a in t.atoms():
        c = t - Poly.atom(a)
        if a in c.atoms():
            continue
        m = {a: at - c}
        try:
            if subst(v.p, m) == r.p and builtins.all(subst(x, m) is y for x, y in zip((v.nan, v.pinf, v.ninf), (r.nan, r.pinf, r.ninf))):
                return True
        except Unsupported:
            pass
    return False


def decide(c):
    """simplify a condition that is entailed one way or the other (cheap queries)"""
    if c is TRUE or c is FALSE:
        return c
    if ctx().entails(c, 400):
        return TRUE
    if ctx().entails(Not(c), 400):
        return FALSE
    return c


def append(x, y, axis=None):
    x, y = asarr(x), asarr(y)
    if axis is None:
        x = x.reshape(-1) if x.ndim != 1 else x
        y = y.reshape(-1) if y.ndim != 1 else y
        axis = 0
    return concatenate([x, y], axis)


def insert(x, obj, values, axis=None):
    x = asarr(x)
    if axis is None:
        x = x.reshape(-1)
        axis = 0
    axis = axis % x.ndim
    if not (isinstance(obj, builtins.int) and obj == 0):
        raise Unsupported("insert at a position other than 0")
    shp = [A.dim_value(a) for a in x.axes]
    shp[axis] = 1
    v = asarr(values)
    if x.kind == "i" and v.kind == "f":
        v = v.astype(int)
    v = plain(v) if not isinstance(x, Quantity) else to_unit(v, x.unit_)
    w = broadcast_to(v, shp)
    return concatenate([mkq(w, x.unit_) if isinstance(x, Quantity) else w, x], axis)


def stack(xs, axis=0):
    r = A.from_list(list(xs))
    return moveaxis(r, 0, axis) if axis else r


def column_stack(xs):
    if hasattr(xs, "as_arr"):
        if getattr(xs, "seg", None) is not None:
            r = xs.as_arr()
            if r.ndim != 2:
                raise Unsupported("column_stack of a symbolic list of matrices")
            return r.T
        if not isinstance(xs, list):
            raise Unsupported("column_stack of a symbolic sequence")
    xs = [x if x.ndim == 2 else x[:, None] for x in map(asarr, xs)]
    if builtins.all(x.axes[1].is1 for x in xs):
        r = A.from_list([x[:, 0] for x in xs])
        return r.T
    return concatenate(xs, 1)


def vstack(xs):
    return concatenate([atleast_2d(x) for x in xs], 0)


def hstack(xs):
    xs = [atleast_1d(x) for x in xs]
    return concatenate(xs, 1 if xs[0].ndim > 1 else 0)


def repeat(*a, **k):
    raise Unsupported("repeat")


def tile(*a, **k):
    raise Unsupported("tile")


def flip(x, axis=None):
    x = asarr(x)
    ix = tuple(slice(None, None, -1) if axis is None or k == axis % x.ndim else slice(None) for k in range(x.ndim))
    for k, s in enumerate(ix):
        if s.step == -1:
            x = x[tuple(s if j == k else slice(None) for j in range(x.ndim))]
    return x


# nonzero of a mask: a tuple of index arrays over the masked axis
def nonzero(x):
    m = _tobool(plain(asarr(x)))
    axis, sizes = A.mask_axis(m, m.axes)
    out, q = [], 0
    for j, s in enumerate(sizes):
        if s != 1:
            raise Unsupported("nonzero of a flattened axis")
        out.append(Arr((axis,), lambda i, j=j: Num(i[0][j], int=True), "i"))
        out[-1].nz = (m, axis, j)
    return tuple(out)


def flatnonzero(x):
    return nonzero(x)[0]


# ------------------------------------------------------------------ binning
def sorted_fact(bins):
    n = bins.axes[0].size
    rd = bins.reader()
    return L.ball([n - 1], lambda j: n_le(num(rd(((j,),))), num(rd(((j + 1,),)))))


def _require_sorted(bins, strict=False):
    n = bins.axes[0].size
    c = sorted_fact(bins)
    if not ctx().entails(c, 4000):
        if not ctx().fork(c):
            raise ValueError("bins must be monotonically increasing or decreasing")


DIG_AX = {}


def digitize(x, bins, right=False):
    x, bins = asarr(x), asarr(bins)
    if right:
        raise Unsupported("digitize(right=True)")
    if isinstance(x, Quantity) or isinstance(bins, Quantity):
        un = unit_of(x) or unit_of(bins)
        x, bins = to_unit(x, un), to_unit(bins, un)
    if bins.ndim != 1:
        raise ValueError("object of too small depth for desired array")
    if not bins.axes[0].plain:
        raise Unsupported("digitize with masked bins")
    n = bins.axes[0].size
    decr = False
    c = sorted_fact(bins)
    if not ctx().entails(c, 4000):
        if not ctx().fork(c):
            raise Unsupported("digitize with bins that are not increasing")
    rb, rx = bins.reader(), x.reader()
    return Arr(x.axes, lambda i: Num(dig_term(n, rb, num(rx(i))), int=True), "i")


def dig_term(n, rb, x):
    """number of bin edges <= x (nan: all of them)"""
    if n.is_const() and n.cval() <= 8:
        r = ZERO
        for j in range(builtins.int(n.cval())):
            c = Or(x.nan, n_le(num(rb(((P(j),),))), x))
            r = r + ind_poly(c)
        return r
    j = L._fresh_box("d", [n])[0]
    e = num(rb(((j,),)))
    b = j.atoms()[0]
    if not (e.flagged or x.flagged):
        return dig_app(b, n, e.p, x.p)
    # infinities at the ends, nan in the data: general count
    if e.flagged:
        if e.nan is not FALSE:
            raise Unsupported("nan bin edges")
        r = Poly.atom(L.agg("digx", (b,), (n,), TRUE, (e.p, e.pinf, e.ninf), (x.p, ind_poly(x.pinf), ind_poly(x.ninf)), sort="I"))
        return ite(x.nan, n, r)
    r = dig_app(b, n, e.p, x.p)
    return ite(Or(x.nan, x.pinf), n, ite(x.ninf, ZERO, r))


def dig_app(b, n, val, x):
    if split_ind(x) is not None:
        r = ZERO
        for c, q in cases(x):
            r = r + ind_poly(c) * dig_app(b, n, val, q)
        return r
    if split_ind(val) is not None:
        raise Unsupported("digitize with conditional edges")
    off, scale, core = L.affine_parts(val, frozenset((b,)))
    if not core.m:
        raise Unsupported("constant bins")
    return Poly.atom(L.agg("dig", (b,), (n,), TRUE, (core,), ((x - off) * recip(scale),), sort="I"))


def _edge_arrays(bins, d):
    if isinstance(bins, (builtins.int,)):
        raise Unsupported("number of bins instead of edges")
    b = asarr(bins)
    if b.ndim != 1:
        raise Unsupported("bins argument")
    return b


def in_bin(rb, nb, k, x, last=None):
    """numpy.histogram's bin membership: [lo, hi), the last bin closed.  nb: number of bins"""
    lo, hi = num(rb(((k,),))), num(rb(((k + 1,),)))
    return And(n_le(lo, x), Or(n_lt(x, hi), And(Eq(k, nb - 1), n_le(x, hi))))


def _hist(xs, bins, weights, int_result):
    """xs: plain 1-D arrays over a common axis; bins: plain 1-D edges"""
    for b in bins:
        _require_sorted(b)
    axis = xs[0].axes[0]
    for x in xs[1:]:
        if axes_equal(axis, x.axes[0]) is not True:
            if not ctx().fork(Eq(axis.size, x.axes[0].size)):
                raise ValueError("samples of different length")
    rbs = [b.reader() for b in bins]
    nbs = [b.axes[0].size - 1 for b in bins]
    rxs = [x.reader() for x in xs]
    rw = None
    un = None
    if weights is not None:
        weights = asarr(weights)
        un = unit_of(weights)
        weights = plain(weights)
        if axes_equal(axis, weights.axes[0]) is not True:
            if not ctx().fork(Eq(axis.size, weights.axes[0].size)):
                raise ValueError("a and weights should have the same shape.")
        rw = weights.reader()

    def fn(i):
        def inb(*z):
            z = tuple(z)
            g = axis.cond(z)
            if g is FALSE:
                return FALSE
            ctx().assume_stack.append(g)
            try:
                c = And(*[in_bin(rb, nb, pt[0], restrict(num(rx((z,))), g)) for rb, nb, rx, pt in zip(rbs, nbs, rxs, i)])
            finally:
                ctx().assume_stack.pop()
            return And(g, c)
        if rw is None:
            return Num(L.bsum(list(axis.base), lambda *z: ONE, inb), int=int_result)

        def w(*z):
            return num(rw((tuple(z),)))
        nn, pi, ni = _flags(list(axis.base), w, inb)
        nn = Or(nn, And(pi, ni))
        return Num(L.bsum(list(axis.base), lambda *z: w(*z).p, inb), nn, pi, ni)
    r = Arr([ax(nb) for nb in nbs], fn, "i" if rw is None and int_result else "f")
    return mkq(r, un) if un is not None else r


def _one_d(x):
    x = asarr(x)
    return x if x.ndim == 1 else x.reshape(-1)


def histogram(a, bins=10, range=None, density=None, weights=None):
    a = _one_d(a)
    if range is not None or density:
        raise Unsupported("histogram with range / density")
    b = _edge_arrays(bins, 0)
    un = unit_of(a)
    if un is not None or isinstance(b, Quantity):
        if un is None:
            un = U.one
        if not isinstance(b, Quantity) and not un.dimless:
            raise U.UnitConversionError("bins without unit")
        bb = to_unit(b, un)
        av = plain(a) if isinstance(a, Quantity) else a
    else:
        av, bb = a, b
    return _hist([av], [bb], weights, True), _q(bb, un)


def histogramdd(sample, bins=10, range=None, density=None, weights=None):
    if range is not None or density:
        raise Unsupported("histogramdd with range / density")
    bins = list(bins)
    if isinstance(sample, (list, tuple)):
        xs = [_one_d(x) for x in sample]
    else:
        s = asarr(sample)
        if s.ndim == 1:
            xs = [s]
        else:
            xs = [s[:, k] for k in builtins.range(len(bins))]
            c = s.axes[1].const()
            if c is not None and c != len(bins):
                raise ValueError("The dimension of bins must be equal to the dimension of the sample x.")
    if len(xs) != len(bins):
        raise ValueError("The dimension of bins must be equal to the dimension of the sample x.")
    return _histq(xs, bins, weights)


def _histq(xs, bins, weights):
    xv, bv, ou = [], [], []
    for x, b in zip(xs, bins):
        b = _edge_arrays(b, 0)
        if isinstance(x, Quantity) or isinstance(b, Quantity):
            un = unit_of(x) or U.one
            if not isinstance(b, Quantity) and not un.dimless:
                raise U.UnitConversionError("bins without unit")
            xv.append(plain(x))
            bv.append(to_unit(b, un))
        else:
            xv.append(x)
            bv.append(b)
        ou.append(b)
    return _hist(xv, bv, weights, False), [b for b in ou]


def histogram2d(x, y, bins=10, range=None, density=None, weights=None):
    if range is not None or density:
        raise Unsupported("histogram2d with range / density")
    h, e = _histq([_one_d(x), _one_d(y)], list(bins), weights)
    return h, e[0], e[1]


def searchsorted(b, x, side="left"):
    if side == "right":
        return digitize(x, b)
    raise Unsupported("searchsorted(left)")


# ------------------------------------------------------------------ interpolation / statistics
def interp(x, xp, fp, left=None, right=None):
    x, xp, fp = asarr(x), asarr(xp), asarr(fp)
    un = unit_of(x) or unit_of(xp)
    if un is not None:
        x, xp = to_unit(x, un), to_unit(xp, un)
    fu = unit_of(fp)
    fp = plain(fp)
    if left is not None or right is not None:
        raise Unsupported("interp with left/right")
    if xp.ndim != 1 or fp.ndim != 1:
        raise ValueError("object too deep for desired array")
    if axes_equal(xp.axes[0], fp.axes[0]) is not True and not ctx().fork(Eq(xp.axes[0].size, fp.axes[0].size)):
        raise ValueError("fp and xp are not of the same length.")
    n = xp.axes[0].size
    rx, rp, rf = x.reader(), xp.reader(), fp.reader()
    return _q(Arr(x.axes, lambda i: interp_term(n, rp, rf, num(rx(i))), "f"), fu)


def len_le(n, k):
    return P(n).is_const() and P(n).cval() <= k


def interp_term(n, rp, rf, x):
    j = L._fresh_box("n", [n])[0]
    b = j.atoms()[0]
    xp, fp = num(rp(((j,),))), num(rf(((j,),)))
    if xp.flagged or x.flagged:
        raise Unsupported("interp with non-finite abscissae")
    if not (len_le(n, 1) or ctx().entails(L.ball([n - 1], lambda k: n_le(num(rp(((k,),))), num(rp(((k + 1,),))))), 4000, congr=True)):
        raise Unsupported("interp with abscissae that may not ascend")
    fl = ctx().never(L.bany([n], lambda k: Not(num(rf(((k,),))).fin))) if fp.flagged else FALSE
    return Num(interp_app(b, n, xp.p, fp.p, x.p), fl)


def interp_app(b, n, xp, fp, x, kind="interp"):
    bs = frozenset((b,))
    if split_ind(x) is not None:
        r = ZERO
        for c, q in cases(x):
            r = r + ind_poly(c) * interp_app(b, n, xp, fp, q, kind)
        return r
    off, sc, core = L.affine_parts(xp, bs)
    if core.m:
        x, xp = (x - off) * recip(sc), core
    foff, fsc, fcore = L.affine_parts(fp, bs)
    if not fcore.m:
        return foff
    return foff + fsc * Poly.atom(L.agg(kind, (b,), (n,), TRUE, (xp, fcore), (x,)))


def _quantile(x, q, axis, nanaware, keepdims=False, method="linear"):
    x, qa = asarr(x), asarr(q)
    if isinstance(qa, Quantity):
        qa = qa.to_value(U.one)
    if method != "linear":
        raise Unsupported("quantile method")
    rq = qa.reader()
    un = unit_of(x)
    xv = plain(x)
    red = _norm_axes(xv, axis)

    def make(qe):
        def f(dims, get, guard):
            return quantile_element(dims, get, guard, qe, nanaware)
        return _reduce(xv, axis, keepdims, f, "f")
    # quantile fractions must lie in [0, 1]
    qi = [a.vars("q") for a in qa.axes]
    qe = num(rq(tuple(qi)))
    ok = And(Le(0, qe.p), Le(qe.p, 1))
    if not ctx().entails(ok):
        allok = L.ball([d for a in qa.axes for d in a.base], lambda *z: And(Le(0, num(rq(_pts(qa.axes, z))).p), Le(num(rq(_pts(qa.axes, z))).p, 1)))
        if not ctx().fork(allok):
            raise ValueError("Quantiles must be in the range [0, 1]")
    if not qa.axes:
        r = make(num(rq(())))
        r.axes and None
        return _q(r, un)
    keep = [a for k, a in enumerate(xv.axes) if k not in red]
    nq = qa.ndim

    def fn(i):
        r = make(num(rq(i[:nq])))
        return r.elt(i[nq:])
    return _q(Arr(list(qa.axes) + keep, fn, "f"), un)


def _pts(axes, z):
    out, k = [], 0
    for a in axes:
        out.append(tuple(z[k:k + len(a.base)]))
        k += len(a.base)
    return tuple(out)


def quantile_element(dims, get, guard, q, nanaware):
    def gd(*z):
        e = num(get(*z))
        return And(TRUE if guard is None else guard(*z), Not(e.nan) if nanaware else TRUE)
    nn, pi, ni = _flags(dims, get, guard)
    if pi is not FALSE or ni is not FALSE:
        raise Unsupported("quantile of infinite values")
    g = gd if (nn is not FALSE and nanaware) else guard
    if dims:
        empty_ = ctx().never(Not(L.bany(dims, lambda *z: TRUE, g)))
    else:
        empty_ = FALSE
    p = L.order_stat("quantile", dims, lambda *z: num(get(*z)).p, g, (q.p,))
    nanf = empty_ if nanaware else Or(empty_, nn)
    return Num(p, nanf)


def quantile(x, q, axis=None, **k):
    return _quantile(x, q, axis, False, **k)


def nanquantile(x, q, axis=None, **k):
    return _quantile(x, q, axis, True, **k)


def percentile(x, q, axis=None, **k):
    return _quantile(x, asarr(q) / 100, axis, False, **k)


def nanpercentile(x, q, axis=None, **k):
    return _quantile(x, asarr(q) / 100, axis, True, **k)


def median(x, axis=None, **k):
    return _quantile(x, 0.5, axis, False, **k)


def nanmedian(x, axis=None, **k):
    return _quantile(x, 0.5, axis, True, **k)


def std(x, axis=None, **k):
    x = asarr(x)
    m = mean(x, axis=axis, keepdims=True)
    return sqrt(mean((x - m) ** 2, axis=axis))


# ------------------------------------------------------------------ linear algebra
# x ^ (1 / k) of x >= 0
NROOT = T.Fn("nroot", 2, "R", nonneg=True, argsorts=("R", "I"))
NROOT.axioms.append(lambda x, k: [Implies(Eq(x, 0), Eq(app(NROOT, x, k), 0)), Implies(Lt(0, x), Lt(0, app(NROOT, x, k)))])
NROOT.pair_axioms.append(lambda a, b: [Implies(And(Eq(a[1], b[1]), Le(0, a[0]), Lt(a[0], b[0])), Lt(app(NROOT, *a), app(NROOT, *b)))])


def monotone(p):
    """without strictly increasing functions around it (of non negative arguments, 0 at 0)"""
    while True:
        fns, args = set(), []
        for c, q in (cases(p) if split_ind(p) is not None else [(TRUE, p)]):
            if q.m:
                (mo, k), *more = q.m.items()
                if more or k != 1 or len(mo) != 1 or mo[0][1] != 1 or mo[0][0].kind != "app" or mo[0][0].fn not in (A.SQRT, NROOT):
                    return p
                a = mo[0][0]
                fns.add((a.fn, a.args[1:]))
                q = P(a.args[0])
            args.append((c, q))
        if len(fns) != 1:
            return p
        if len(args) == 1:
            p = args[0][1]
        else:
            p = builtins.sum((ind_poly(c) * q for c, q in args), ZERO)


def dot(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim == 1 and b.ndim == 1:
        return sum(a * b)
    if a.ndim == 1 and b.ndim == 2:
        return sum(a[:, None] * b, axis=0)
    if a.ndim == 2 and b.ndim == 1:
        return sum(a * b[None, :], axis=1)
    if a.ndim == 2 and b.ndim == 2:
        return sum(a[:, :, None] * b[None, :, :], axis=1)
    raise Unsupported("dot")


def matmul(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError("matmul: input operand does not have enough dimensions")
    if a.ndim == 1 and b.ndim == 1:
        return sum(a * b)
    if a.ndim == 1:
        return sum(a[:, None] * b, axis=-2)
    if b.ndim == 1:
        return sum(a * b, axis=-1)
    return sum(a[..., :, :, None] * b[..., None, :, :], axis=-2)


def take(a, indices, axis=None, **k):
    if k:
        raise Unsupported("take with options")
    x = asarr(a)
    if axis is None:
        if x.ndim != 1:
            raise Unsupported("take from a flattened array")
        axis = 0
    axis = axis % x.ndim
    if isinstance(indices, (list, tuple)):
        indices = array(list(indices))
    return x[tuple(indices if j == axis else slice(None) for j in builtins.range(x.ndim))]


def take_along_axis(arr, indices, axis=-1):
    x, ix = asarr(arr), asarr(indices)
    if axis is None or x.ndim != ix.ndim:
        raise Unsupported("take_along_axis of arrays of different dimensions")
    axis = axis % x.ndim
    if not builtins.all(a.plain for a in ix.axes):
        raise Unsupported("take_along_axis of masked axes")
    pick = []
    for k in builtins.range(x.ndim):
        if k == axis:
            pick.append(ix)
        else:
            pick.append(arange(x.shape[k])[tuple(slice(None) if j == k else None for j in builtins.range(x.ndim))])
    return x[tuple(pick)]


def split(x, sections, axis=0):
    x = asarr(x)
    if not isinstance(sections, int) or axis not in (0, -x.ndim):
        raise Unsupported("split at positions")
    n = x.shape[0]
    if not n % sections == 0:
        raise ValueError("array split does not result in an equal division")
    m = n // sections
    return [x[k * m:(k + 1) * m] for k in builtins.range(sections)]


def cross(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim == 1 and b.ndim == 1 and a.axes[0].const() == 2 and b.axes[0].const() == 2:
        return a[0] * b[1] - a[1] * b[0]
    raise Unsupported("cross")


def einsum(spec, *ops):
    spec = spec.replace(" ", "")
    ins, out = spec.split("->")
    ins = ins.split(",")
    ops = [asarr(o) for o in ops]
    if builtins.any(isinstance(o, Quantity) for o in ops):
        raise Unsupported("einsum of quantities")
    # ellipsis axes
    terms = []
    nell = 0
    for s, o in zip(ins, ops):
        letters = s.replace("...", "")
        ne = o.ndim - len(letters)
        if "..." in s:
            nell = builtins.max(nell, ne)
        terms.append((s, letters, ne))
    ells = [chr(0x391 + k) for k in range(nell)] if (nell := nell) else []
    ax_of = {}
    readers = []
    for (s, letters, ne), o in zip(terms, ops):
        names = []
        if "..." in s:
            pre, post = s.split("...")
            names = list(pre) + ells[nell - ne:] + list(post)
        else:
            names = list(s)
        for nme, a in zip(names, o.axes):
            if nme in ax_of:
                ax_of[nme] = unify_axis(ax_of[nme], a)
            else:
                ax_of[nme] = a
        readers.append((names, o.reader(), o.axes))
    onames = (list(out.split("...")[0]) + ells + list(out.split("...")[1])) if "..." in out else list(out)
    contracted = [n for n in ax_of if n not in onames]
    kind = result_kind(*[o.kind for o in ops])

    def fn(i):
        env = dict(zip(onames, i))
        dims = [d for n in contracted for d in ax_of[n].base]

        def body(*z):
            e2 = dict(env)
            k = 0
            for n in contracted:
                w = len(ax_of[n].base)
                e2[n] = tuple(z[k:k + w])
                k += w
            r = None
            for names, rd, axes in readers:
                v = num(rd(tuple(tuple(ZERO for _ in a.base) if a.is1 else e2[n] for n, a in zip(names, axes))))
                r = v if r is None else n_mul(r, v)
            return r
        nn, pi, ni = _flags(dims, body, None)
        nn = Or(nn, And(pi, ni))
        return Num(L.bsum(dims, lambda *z: body(*z).p), nn, pi, ni)
    return Arr([ax_of[n] for n in onames], fn, kind)


class linalg:
    class LinAlgError(ValueError):
        pass

    @staticmethod
    def norm(x, ord=None, axis=None, keepdims=False):
        """of vectors: (sum |x|^ord) ^ (1 / ord)"""
        x = asarr(x)
        un = x.unit_ if isinstance(x, Quantity) else None
        v = plain(x)
        if isinstance(axis, (tuple, list)) or (axis is None and ord is not None and v.ndim != 1):
            raise Unsupported("norm of matrices")
        if isinstance(ord, Arr):
            c = num(ord.scalar())
            if not c.p.is_const() or c.flagged:
                raise Unsupported("norm of symbolic order")
            ord = float(c.p.cval())
        if ord is None or ord == 2:
            r = unary(sum(v * v, axis=axis, keepdims=keepdims), lambda e: Num(A.t_sqrt(num(e).p), num(e).nan, num(e).pinf), "f")
        elif ord == 1:
            r = sum(abs(v), axis=axis, keepdims=keepdims)
        elif ord == math.inf:
            r = max(abs(v), axis=axis, keepdims=keepdims)
        elif ord == int(ord) and ord > 0:
            p = P(int(ord))
            r = unary(sum(abs(v) ** int(ord), axis=axis, keepdims=keepdims), lambda e: Num(app(NROOT, num(e).p, p), num(e).nan, num(e).pinf), "f")
        else:
            raise Unsupported(f"norm of order {ord}")
        return mkq(r, un) if un is not None else r

    @staticmethod
    def inv(m):
        m = asarr(m)
        if m.ndim != 2 or m.axes[0].const() != 2 or m.axes[1].const() != 2:
            raise Unsupported("inverse of other than 2x2")
        a, b, c, d = m[0, 0], m[0, 1], m[1, 0], m[1, 1]
        det = a * d - b * c
        if not (det != 0):
            raise linalg.LinAlgError("Singular matrix")
        return A.from_list([A.from_list([d / det, -b / det]), A.from_list([-c / det, a / det])])


# ------------------------------------------------------------------ functional helpers
def merge_outcomes(outs):
    r = None
    for c, v in outs:
        if isinstance(v, Raised):
            raise Unsupported(f"exception in an elementwise function: {v.e!r}")
        e = v if isinstance(v, (Num, B)) else asarr(v).scalar()
        e = restrict(e, c)
        r = e if r is None else e_ite(c, e, r)
    return r


def elementwise(body):
    """the value of body(), all its paths merged"""
    return merge_outcomes(explore(body))


def subst_num(e, m):
    e = num(e)
    return Num(subst(e.p, m), subst(e.nan, m), subst(e.pinf, m), subst(e.ninf, m), e.int)


class vectorize:
    def __init__(self, pyfunc, otypes=None, excluded=None, **k):
        self.f = pyfunc
        self.excluded = set(excluded or ())

    def __call__(self, *a, **k):
        import inspect
        names = list(inspect.signature(self.f).parameters)
        kw = dict(zip(names, a))
        kw.update(k)
        arrs = {n: asarr(v) for n, v in kw.items() if n not in self.excluded}
        rest = {n: v for n, v in kw.items() if n in self.excluded}
        axes = broadcast([v.axes for v in arrs.values()])
        rds = {n: bc_reader(plain(v), axes) for n, v in arrs.items()}

        def body(i):
            return self.f(**{n: arr0(rd(i)) for n, rd in rds.items()}, **rest)
        # exceptions raised for some element are raised for the call
        idx = tuple(a.vars("v") for a in axes)
        rng = And(*[And(Le(0, t), Lt(t, d)) for a, p in zip(axes, idx) for t, d in zip(p, a.base)], *[a.cond(p) for a, p in zip(axes, idx)])
        outs = explore(lambda: body(idx), rng)
        m = [t.atoms()[0] for p in idx for t in p]
        good = []
        for c, v in outs:
            if not isinstance(v, Raised):
                good.append((c, v))
            else:
                exc = L.bany([d for a in axes for d in a.base], lambda *z: subst(And(rng, c), dict(zip(m, z))))
                if ctx().fork(exc):
                    raise v.e
        if axes and ctx().fork(Or(*[Le(a.size, 0) for a in axes])):
            raise ValueError("cannot call `vectorize` on size 0 inputs unless `otypes` is set")
        e = merge_outcomes(good)
        return Arr(axes, lambda i: subst_num(e, dict(zip(m, [t for p in i for t in p]))), "f")


def apply_along_axis(func, axis, arr, *args, **kw):
    """the function of every row along the axis"""
    from . import loops
    arr = asarr(arr)
    if not isinstance(axis, int) or not -arr.ndim <= axis < arr.ndim:
        raise Unsupported("axis of apply_along_axis")
    axis %= arr.ndim
    axes = arr.axes[:axis] + arr.axes[axis + 1:]
    if builtins.any(a.guard is not None for a in arr.axes):
        raise Unsupported("apply_along_axis over a masked array")
    if axes and not ctx().entails(And(*[Lt(0, d) for a in axes for d in a.base])):
        if ctx().fork(Or(*[Le(d, 0) for a in axes for d in a.base])):
            raise ValueError("Cannot apply_along_axis when any iteration dimensions are 0")

    def points(flat):
        it = iter(flat)
        return tuple(tuple(next(it) for _ in a.base) for a in axes)

    def row(flat):
        rd, pt = arr.reader(), points(flat)
        return func(arr._like((arr.axes[axis],), lambda j: rd((*pt[:axis], j[0], *pt[axis:]))), *args, **kw)
    dims = [d for a in axes for d in a.base]
    r = asarr(loops.nested(row, dims) if dims else row(()))
    rd, m = r.reader(), len(dims)
    out = r.axes[m:]
    q = len(out)

    def fn(i):
        pts = i[:axis] + i[axis + q:]
        return rd((*[(t,) for pt in pts for t in pt], *i[axis:axis + q]))
    return r._like((*axes[:axis], *out, *axes[axis:]), fn)


class errstate:
    def __init__(self, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def seterr(**k):
    return {}


def isscalar(x):
    return not isinstance(x, (Arr, list, tuple)) or (isinstance(x, Arr) and not x.axes)


class _Lib:
    pass


__version__ = "2.0.0"


def module():
    m = types.ModuleType("numpy")
    for k, v in globals().items():
        if not k.startswith("_") and k not in ("builtins", "Fraction", "types", "T", "L", "A", "U", "math"):
            setattr(m, k, v)
    m.pi = pi_
    m.e = arr0(Num(A.t_exp(ONE)))
    m.int_ = int64
    m.__version__ = __version__
    m.NaN = nan
    return m
