"""The specification language: one text, two readings.

SymS reads it over terms (proof obligations), ConS over genuine numpy / astropy values
(replay of counterexamples and the always-on cross-check of the real code)."""
import math
import operator as op
import itertools

from .terms import *
from . import terms as T
from . import arrays as A
from . import logic as L
from . import units as U
from .arrays import Arr, Num, num, asarr
from .ctx import ctx
from .units import Quantity


class SymS:
    symbolic = True
    u = U
    nan, inf = A.NAN, A.PINF

    # -- structure
    def n(self, x, axis=0):
        return asarr(x).axes[axis].size

    def ndim(self, x):
        return asarr(x).ndim

    def shape_is(self, x, *dims):
        x = asarr(x)
        if x.ndim != len(dims):
            return FALSE
        return And(*[Eq(a.size, P(d)) for a, d in zip(x.axes, dims)])

    def has_unit(self, x):
        return isinstance(x, Quantity)

    def unit_like(self, x, un):
        """x has the dimension of un"""
        return BC(isinstance(x, Quantity) and x.unit_.is_equivalent(U.as_unit(un)))

    def unit_is(self, x, un):
        """x has exactly the unit un"""
        return BC(isinstance(x, Quantity) and x.unit_ == U.as_unit(un))

    def same_unit(self, x, y):
        return BC(isinstance(x, Quantity) and isinstance(y, Quantity) and x.unit_ == y.unit_)

    def to(self, x, un):
        """plain array of x in the unit un (None: as it is)"""
        x = asarr(x)
        if un is None:
            return U.plain(x) if isinstance(x, Quantity) else x
        return U.to_unit(x, U.as_unit(un) if not isinstance(un, U.UnitBase) else un)

    def unit(self, x):
        x = asarr(x)
        return x.unit_ if isinstance(x, Quantity) else None

    def at(self, x, *idx, un=None):
        x = asarr(x)
        if un is not None:
            x = self.to(x, un)
        e = x.elt(tuple(self._pt(i) for i in idx))
        return e

    def _pt(self, i):
        if isinstance(i, tuple):
            return i
        if isinstance(i, Num):
            return (i.p,)
        return (P(i),)

    def num(self, x, un=None):
        if isinstance(x, Arr):
            if un is not None:
                x = self.to(x, un)
            return num(x.scalar())
        return num(x)

    def truth(self, x):
        return A.as_bool(asarr(x).scalar()) if isinstance(x, Arr) else BC(bool(x))

    def is_scalar(self, x):
        return BC(not isinstance(x, Arr) or not x.axes)

    # -- logic
    def And(self, *b): return And(*[BC(x) for x in b])
    def Or(self, *b): return Or(*[BC(x) for x in b])
    def Not(self, b): return Not(BC(b))
    def Implies(self, a, b): return Implies(BC(a), BC(b))
    def Iff(self, a, b): return Iff(BC(a), BC(b))

    def true(self, x):
        return x if isinstance(x, B) else BC(bool(x))

    def eq(self, a, b, **k):
        return A.same(a, b)

    def ieq(self, a, b):
        return A.same(a, b)

    def lt(self, a, b): return A.n_lt(num(a), num(b))
    def le(self, a, b): return A.n_le(num(a), num(b))

    def approx_le(self, a, b, scale=0.0):
        return self.le(a, b)

    def ite(self, c, a, b):
        c = BC(c)
        if isinstance(a, B) or isinstance(b, B):
            return IteB(c, BC(a), BC(b))
        return A.n_ite(c, num(a), num(b))

    def isnan(self, x): return num(x).nan

    def hint_log(self, cond, items, bound):
        """a weighted sum of logarithms is at least ``bound``: instances of the theorem
        1 - 1/t <= ln t <= t - 1 (t > 0).  items: (factors above, factors below, weight),
        t the quotient; a negative factor -1 in front of the weight turns the item around.
        That the bounds of the single terms add up to ``bound`` is proved first."""
        from .ctx import ctx
        pre, total, low = [BC(cond)], num(0), num(0)
        for up, down, w, sign in items:
            up, down, w = [num(x) for x in up], [num(x) for x in down], num(w)
            pre += [And(Lt(0, x.p), x.fin) for x in up + down] + [Le(0, w.p), w.fin]
            t, l = num(1), num(0)
            for x in up:
                t, l = t * x, l + self.log(x)
            for x in down:
                t, l = t / x, l - self.log(x)
            total = total + w * l * sign
            low = low + (w * (1 - 1 / t) if sign > 0 else w * (1 - t))
        pre = And(*pre)
        bound = num(bound)
        side = Implies(pre, Le(bound.p, low.p))
        if L.prove(ctx().hyps(side), side, 20000).status == "proved":
            ctx().add(Implies(pre, Le(bound.p, total.p)))

    def real(self, x):
        """the number, for use where it is known to be finite"""
        return Num(num(x).p)
    def isinf(self, x): return num(x).inf
    def finite(self, x): return num(x).fin

    # -- aggregates
    def sum(self, dims, f, where=None):
        dims = self._dims(dims)
        j = None
        w = None if where is None else (lambda *i: BC(where(*i)))
        from .npshim import _flags

        def get(*i):
            return num(f(*i))
        nn, pi, ni = _flags(dims, get, w)
        p = L.bsum(dims, lambda *i: get(*i).p, w)
        nn = Or(nn, And(pi, ni))
        return Num(p, nn, And(Not(nn), pi), And(Not(nn), ni))

    def count(self, dims, where):
        return Num(L.bsum(self._dims(dims), lambda *i: ONE, lambda *i: BC(where(*i))), int=True)

    def all(self, dims, f):
        return L.ball(self._dims(dims), lambda *i: BC(f(*i)))

    def any(self, dims, f):
        return L.bany(self._dims(dims), lambda *i: BC(f(*i)))

    def quantile(self, dims, f, q, where=None):
        from .npshim import quantile_element
        w = None if where is None else (lambda *i: BC(where(*i)))
        return quantile_element(self._dims(dims), f, w, num(q), True)

    def argmin(self, dims, f, where=None):
        from .npshim import arg_term
        w = None if where is None else (lambda *i: BC(where(*i)))
        return arg_term("argmin", self._dims(dims), f, w, True)

    def argsort(self, n, f):
        """place in ascending order -> index"""
        from .npshim import sort_index
        (n,) = self._dims(n)
        return lambda i: sort_index(n, [f], P(i))

    def in_hull(self, points, target):
        """target (1, d) is in the convex hull of the points; for more than one dimension"""
        from .geometry import Delaunay
        t = Delaunay(points)
        return Le(0, t.containing([num(self.at(target, 0, k)).p for k in range(t.ndim)]))

    def griddata(self, n, point, value, target, method="linear"):
        from .geometry import griddata_term
        return griddata_term(P(n), point, value, target, method)

    def triangle(self, points, target, nearest=None, inside=True):
        """the corners of the triangle of the grid that contains the target, nearest if there is none
        (or it is known that there is one)"""
        from .geometry import Delaunay
        t = Delaunay(points)
        x = [num(v) for v in target]
        s = t.containing([v.p for v in x])
        k = s
        if nearest is not None:
            k = num(nearest(t, A.from_list(x))).p
            if inside:
                k = ite(Le(0, s), s, k)
        return [num(t.simplices.reader()(((k,), (P(i),)))) for i in range(3)]

    def agg(self, kind, dims, f, where=None):
        w = None if where is None else (lambda *i: BC(where(*i)))
        return Num(L.order_stat(kind, self._dims(dims), lambda *i: num(f(*i)).p, w))

    def min(self, dims, f, where=None): return self.agg("min", dims, f, where)
    def max(self, dims, f, where=None): return self.agg("max", dims, f, where)

    def _dims(self, d):
        return [P(x.p if isinstance(x, Num) else x) for x in (d if isinstance(d, (list, tuple)) else [d])]

    def digit(self, n, edge, x):
        """number of edges <= x"""
        from .npshim import dig_term
        return Num(dig_term(P(n), lambda i: edge(i[0][0]), num(x)), int=True)

    # -- functions
    def log(self, x): return A.n_log(num(x))
    def log10(self, x):
        from .npshim import _n_log10
        return _n_log10(num(x))
    def exp(self, x): return A.n_exp(num(x))
    def sqrt(self, x): return A.n_sqrt(num(x))
    def pow(self, a, b): return A.n_pow(num(a), num(b))
    def cos(self, x): return A.n_cos(num(x))
    def sin(self, x): return A.n_sin(num(x))
    def acos(self, x): return Num(app(A.ACOS, num(x).p))
    def clip(self, x, lo, hi):
        from .npshim import clip
        return num(clip(Arr((), lambda i: num(x), "f"), lo, hi).reader()(()))
    def abs(self, x): return A.n_abs(num(x))
    def memo(self, f):
        m = {}

        def g(*i):
            k = tuple(self._pt(j)[0].key if not isinstance(j, tuple) else tuple(z.key for z in j) for j in i)
            if k not in m:
                m[k] = f(*i)
            return m[k]
        return g

    def near(self, a, b, rtol):
        """within a relative distance of b, which is not negative"""
        from fractions import Fraction
        r = Fraction(rtol).limit_denominator(10 ** 15)
        a, b = num(a), num(b)
        return And(a.fin, b.fin, Le(b.p * (1 - r), a.p), Le(a.p, b.p * (1 + r)))

    def named(self, x):
        """x under a name of its own (large terms)"""
        v = num(x)
        return v if v.flagged else Num(L.let(v.p))

    def generic(self, n, f):
        """f(k) for k < n, made once for a generic k"""
        from . import loops
        n, = self._dims([n])
        k = ctx().index_var(P(n), "k")
        hyp = And(Le(0, k), Lt(k, P(n)))
        ctx().assume_stack.append(hyp)
        try:
            v = f(k)
        finally:
            ctx().assume_stack.pop()
        if isinstance(v, Num):
            v = Arr((), lambda i, v=v: v, "i" if v.int else "f")
            at = loops.lift(v, k, hyp)
            return lambda i: num(at(self._pt(i)[0]).reader()(()))
        at = loops.lift(v, k, hyp)
        return lambda i: at(self._pt(i)[0])

    def row(self, x, axis, i):
        """the part of the array at index i of the axis"""
        return x[(slice(None),) * axis + (A.IntScalar(self._pt(i)[0]),)]

    def interp(self, n, xs, ys, x):
        """linear interpolation between n nodes in ascending order, constant outside"""
        from .npshim import interp_term
        return interp_term(P(n), lambda i: num(xs(i[0][0])), lambda i: num(ys(i[0][0])), num(x))

    def gauss(self, mode, sigma, n, i, j):
        """weight of element j in element i of a gaussian filter over n elements"""
        from .shims import gauss_weight
        return Num(gauss_weight(mode, num(sigma).p, *[self._pt(x)[0] for x in (n, i, j)]))

    def ncdf(self, x):
        from .shims import t_ncdf
        return Num(t_ncdf(num(x).p), num(x).nan)
    pi = Num(A.PI)

    def angsep(self, *a):
        from .shims import SEP
        return Num(app(SEP, *[num(x).p for x in a]))

    def posang(self, *a):
        from .shims import PANG
        return Num(app(PANG, *[num(x).p for x in a]))

    def offlon(self, *a):
        from .shims import OFFLON
        return Num(app(OFFLON, *[num(x).p for x in a]))

    def offlat(self, *a):
        from .shims import OFFLAT
        return Num(app(OFFLAT, *[num(x).p for x in a]))

    def call(self, f, *a):
        """elementwise application of a symbolic function object given as input"""
        return f(*a)

    # -- strings and tables
    def streq(self, a, b):
        from .symstr import SymStr
        a = a if isinstance(a, SymStr) else SymStr(a)
        return a.sym_eq(b)

    def cols_are(self, t, names, extra=False):
        """the (literally named) columns, in any order"""
        have = list(t.cols)
        return BC(sorted(have) == sorted(names)) if not extra else BC(set(names) <= set(have))

    def col(self, t, name):
        return t.cols[name] if name in t.cols else t[name]

    def fam(self, t, prefix, key, suffix=""):
        """column prefix + key + suffix for an element of a string column: (exists, column)"""
        try:
            return t.family(prefix, key.parts[0], suffix)
        except KeyError:
            return FALSE, None

    def fam_at(self, t, prefix, key, suffix, *idx):
        ok, c = self.fam(t, prefix, key, suffix)
        return self.at(c, *idx) if c is not None else A.NAN

    def no_fam(self, t):
        return BC(not t.fams)


_MEMO = {}


class ConS:
    symbolic = False
    nan, inf = float("nan"), float("inf")
    pi = math.pi
    RTOL = 1e-9

    def __init__(self):
        import numpy as np
        import astropy.units as u
        self.np, self.u = np, u
        self.rtol = self.RTOL

    def n(self, x, axis=0):
        return self.np.shape(x)[axis]

    def ndim(self, x):
        return self.np.ndim(x)

    def shape_is(self, x, *dims):
        return tuple(self.np.shape(x)) == tuple(int(d) for d in dims)

    def has_unit(self, x):
        return isinstance(x, self.u.Quantity)

    def unit_like(self, x, un):
        return isinstance(x, self.u.Quantity) and x.unit.is_equivalent(un)

    def unit_is(self, x, un):
        return isinstance(x, self.u.Quantity) and x.unit == self.u.Unit(un)

    def same_unit(self, x, y):
        return isinstance(x, self.u.Quantity) and isinstance(y, self.u.Quantity) and x.unit == y.unit

    def to(self, x, un):
        if un is None:
            return self.np.asarray(x.value if isinstance(x, self.u.Quantity) else x)
        return self.np.asarray(self.u.Quantity(x).to_value(un))

    def unit(self, x):
        return x.unit if isinstance(x, self.u.Quantity) else None

    def at(self, x, *idx, un=None):
        if isinstance(x, self.u.Quantity):
            x = x.to_value(un) if un is not None else x.value
        x = self.np.asarray(x)
        ix = tuple(int(i) for i in idx)
        if any(i < 0 or i >= n for i, n in zip(ix, x.shape)):
            raise IndexError("specification index out of range")
        return self._sc(x[ix])

    def _sc(self, e):
        if isinstance(e, (self.np.floating, float)):
            return self.np.float64(e)
        return e.item() if hasattr(e, "item") else e

    def num(self, x, un=None):
        if isinstance(x, self.u.Quantity):
            x = x.to_value(un) if un is not None else x.value
        return self._sc(self.np.asarray(x)[()])

    def truth(self, x):
        return bool(x)

    def is_scalar(self, x):
        return self.np.ndim(x) == 0

    def And(self, *b): return all(bool(x) for x in b)
    def Or(self, *b): return any(bool(x) for x in b)
    def Not(self, b): return not b
    def Implies(self, a, b): return (not a) or bool(b)
    def Iff(self, a, b): return bool(a) == bool(b)
    def true(self, x): return bool(x)

    def eq(self, a, b, scale=0.0, rtol=None):
        if isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)):
            return a == b
        a, b = float(a), float(b)
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= (rtol or self.rtol) * max(abs(a), abs(b), float(scale)) + 1e-300

    def ieq(self, a, b):
        return a == b

    def lt(self, a, b): return a < b
    def le(self, a, b): return a <= b

    def approx_le(self, a, b, scale=0.0):
        """a <= b up to rounding"""
        return a <= b or self.eq(a, b, scale=scale)

    def ite(self, c, a, b): return a if c else b
    def isnan(self, x): return math.isnan(x)
    def isinf(self, x): return math.isinf(x)
    def hint_log(self, cond, items, bound): pass
    def real(self, x): return x
    def finite(self, x): return math.isfinite(x)

    def _box(self, dims):
        dims = dims if isinstance(dims, (list, tuple)) else [dims]
        return itertools.product(*[range(int(d)) for d in dims])

    def sum(self, dims, f, where=None):
        v = [float(f(*i)) for i in self._box(dims) if where is None or where(*i)]
        if any(not math.isfinite(x) for x in v):
            return float(self.np.sum(v))
        return math.fsum(v)

    def count(self, dims, where):
        return sum(1 for i in self._box(dims) if where(*i))

    def all(self, dims, f): return all(f(*i) for i in self._box(dims))
    def any(self, dims, f): return any(f(*i) for i in self._box(dims))

    def quantile(self, dims, f, q, where=None):
        v = [float(f(*i)) for i in self._box(dims) if where is None or where(*i)]
        v = [x for x in v if not math.isnan(x)]
        if not v:
            return math.nan
        return float(self.np.quantile(v, q))

    def argmin(self, dims, f, where=None):
        best, r = None, 0
        for (i,) in self._box(dims):
            if where is not None and not where(i):
                continue
            v = float(f(i))
            if math.isnan(v):
                continue
            if best is None or v < best:
                best, r = v, i
        return r

    def argsort(self, n, f):
        o = sorted(range(int(n)), key=f)
        return lambda i: o[i]

    def in_hull(self, points, target):
        """by linear programming: a convex combination of the points, up to rounding"""
        from scipy.optimize import linprog
        np = self.np
        points, target = np.asarray(points, float), np.asarray(target, float).reshape(-1)
        n = len(points)
        scale = np.abs(points).max() + 1e-300
        A = np.vstack([points.T / scale, np.ones((1, n))])
        # smallest distance of a convex combination, in the largest coordinate
        d = points.shape[1]
        one = np.ones((d, 1))
        ub = np.vstack([np.hstack([points.T / scale, -one]), np.hstack([-points.T / scale, -one])])
        r = linprog([0.0] * n + [1.0], A_ub=ub, b_ub=np.concatenate([target / scale, -target / scale]),
                    A_eq=[[1.0] * n + [0.0]], b_eq=[1.0], bounds=[(0, None)] * (n + 1))
        return bool(r.x[-1] < 1e-9)

    def griddata(self, n, point, value, target, method="linear"):
        np, d, n = self.np, len(target), int(n)
        p, v, t = np.array([[float(point(j, k)) for k in range(d)] for j in range(n)]), np.array([float(value(j)) for j in range(n)]), np.array([float(x) for x in target])
        if method == "nearest":
            return v[np.argmin(((p - t) ** 2).sum(axis=1))]
        assert method == "linear"
        if d == 1:
            o = np.argsort(p[:, 0])
            return float(np.interp(t[0], p[o, 0], v[o], left=np.nan, right=np.nan))
        from scipy.spatial import Delaunay
        tri = Delaunay(p)
        s = int(tri.find_simplex(t))
        if s < 0:
            return float("nan")
        c = tri.simplices[s]
        return float(np.linalg.solve(np.vstack([p[c].T, np.ones(d + 1)]), np.append(t, 1.0)) @ v[c])

    def triangle(self, points, target, nearest=None, inside=True):
        from scipy.spatial import Delaunay
        t = Delaunay(self.np.asarray(points))
        x = self.np.array([float(v) for v in target])
        s = int(t.find_simplex(x)) if inside else -1
        return [int(i) for i in t.simplices[s if s >= 0 else nearest(t, x)]]

    def min(self, dims, f, where=None):
        return min(float(f(*i)) for i in self._box(dims) if where is None or where(*i))

    def max(self, dims, f, where=None):
        return max(float(f(*i)) for i in self._box(dims) if where is None or where(*i))

    def digit(self, n, edge, x):
        return sum(1 for j in range(int(n)) if math.isnan(x) or edge(j) <= x)

    def log(self, x):
        return math.nan if x < 0 else (-math.inf if x == 0 else math.log(x))

    def log10(self, x):
        return math.nan if x < 0 else (-math.inf if x == 0 else math.log10(x))

    def exp(self, x):
        try:
            return math.exp(x)
        except OverflowError:
            return math.inf

    def sqrt(self, x):
        return math.nan if x < 0 else math.sqrt(x)

    def pow(self, a, b):
        with self.np.errstate(all="ignore"):
            return float(self.np.float64(a) ** self.np.float64(b))

    def cos(self, x): return math.cos(x)
    def sin(self, x): return math.sin(x)
    def acos(self, x): return math.acos(x)
    def clip(self, x, lo, hi): return min(max(x, lo), hi)
    def abs(self, x): return abs(x)

    def generic(self, n, f):
        return self.memo(f)

    def row(self, x, axis, i):
        return x[(slice(None),) * axis + (int(i),)]

    def near(self, a, b, rtol):
        return b * (1 - rtol) <= a <= b * (1 + rtol)

    def named(self, x):
        return x

    def memo(self, f):
        """f with its values kept (concrete runs)"""
        m = {}

        def g(*i):
            k = tuple(int(j) for j in i)
            if k not in m:
                m[k] = f(*k)
            return m[k]
        return g

    def interp(self, n, xs, ys, x):
        n = int(n)
        if x < xs(0):
            return ys(0)
        for j in range(n - 1, -1, -1):
            if xs(j) <= x:
                break
        if j == n - 1:
            return ys(n - 1)
        return ys(j) + (ys(j + 1) - ys(j)) * (x - xs(j)) / (xs(j + 1) - xs(j))

    def gauss(self, mode, sigma, n, i, j):
        from scipy.ndimage import gaussian_filter1d
        key = ("gauss", mode, float(sigma), int(n))
        if key not in _MEMO:
            if len(_MEMO) > 200:
                _MEMO.clear()
            _MEMO[key] = gaussian_filter1d(self.np.eye(int(n)), float(sigma), axis=0, mode=mode)
        return float(_MEMO[key][int(i), int(j)])

    def ncdf(self, x):
        return 0.5 * math.erfc(-x / math.sqrt(2))

    def angsep(self, lon1, lat1, lon2, lat2):
        # Vincenty, written out independently
        dl = lon2 - lon1
        a = math.cos(lat2) * math.sin(dl)
        b = math.cos(lat1) * math.sin(lat2) - math.sin(lat1) * math.cos(lat2) * math.cos(dl)
        c = math.sin(lat1) * math.sin(lat2) + math.cos(lat1) * math.cos(lat2) * math.cos(dl)
        return math.atan2(math.hypot(a, b), c)

    def posang(self, lon1, lat1, lon2, lat2):
        dl = lon2 - lon1
        x = math.sin(lat2) * math.cos(lat1) - math.cos(lat2) * math.sin(lat1) * math.cos(dl)
        y = math.sin(dl) * math.cos(lat2)
        return math.atan2(y, x) % (2 * math.pi)

    def _off(self, lon1, lat1, lon2, lat2):
        # rotate the origin to (0, 0)
        x, y, z = math.cos(lat2) * math.cos(lon2 - lon1), math.cos(lat2) * math.sin(lon2 - lon1), math.sin(lat2)
        xx = x * math.cos(lat1) + z * math.sin(lat1)
        zz = -x * math.sin(lat1) + z * math.cos(lat1)
        return math.atan2(y, xx), math.asin(max(-1, min(1, zz)))

    def offlon(self, *a): return self._off(*a)[0]
    def offlat(self, *a): return self._off(*a)[1]

    def call(self, f, *a):
        return f(*a)

    # -- strings and tables
    def streq(self, a, b):
        return str(a) == str(b)

    def cols_are(self, t, names, extra=False):
        return sorted(t.colnames) == sorted(names) if not extra else set(names) <= set(t.colnames)

    def col(self, t, name):
        return t[name]

    def fam(self, t, prefix, key, suffix=""):
        n = f"{prefix}{key}{suffix}"
        return (n in t.colnames), (t[n] if n in t.colnames else None)

    def fam_at(self, t, prefix, key, suffix, *idx):
        ok, c = self.fam(t, prefix, key, suffix)
        return self.at(c, *idx) if ok else math.nan

    def no_fam(self, t):
        return True
