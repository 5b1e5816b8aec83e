"""scipy.spatial.Delaunay as an unknown but fixed triangulation of its points"""
from .terms import *
from . import arrays as A
from . import logic as L
from . import opaque
from .arrays import Arr, Num, num, asarr, ax
from .ctx import ctx
from .units import plain

MEMO = {}


def _fn(name, n, sort, axioms=()):
    k = (name, n, sort)
    if k not in MEMO:
        MEMO[k] = Fn(name, n, sort)
        MEMO[k].axioms.extend(axioms)
    return MEMO[k]


class Delaunay:
    """simplices and facets are corners of the grid.  A target is in a simplex (find_simplex >= 0)
    if and only if it is inside the convex hull, borders included"""

    def __init__(self, points):
        points = plain(asarr(points))
        if points.ndim != 2:
            raise ValueError("`points` should be a 2-D array")
        d = points.axes[1].const()
        if d is None:
            raise Unsupported("triangulation in unknown dimensions")
        if d < 2:
            raise ValueError("Need at least 2-D data")
        ctx().assumptions.add("scipy.spatial.Delaunay: simplices and facets have corners among the grid points, no facet appears twice, find_simplex finds a simplex that contains the target if and only if the target is inside the convex hull (borders included), triangles are not degenerate")
        self.points = points
        self.opaque_parts = (points,)
        self.ndim = d
        sig = opaque.Sig()
        sig.add(points)
        self.name, self.loc = sig.close("delaunay")
        n = points.axes[0].size
        loc = tuple(self.loc)
        self.n_simplices = app(_fn(f"{self.name}.n_simplices", len(loc), "I", [lambda *t: [Le(1, app(MEMO[f"{self.name}.n_simplices", len(loc), "I"], *t))]]), *loc)
        self.n_facets = app(_fn(f"{self.name}.n_facets", len(loc), "I", [lambda *t: [Le(1 + d, app(MEMO[f"{self.name}.n_facets", len(loc), "I"], *t))]]), *loc)
        self.npoints = Num(n, int=True)
        self.simplices = self._corners("simplices", self.n_simplices, d + 1, n)
        self.convex_hull = self._corners("convex_hull", self.n_facets, d, n)

    def _corners(self, what, m, k, n):
        name = f"{self.name}.{what}"
        na = len(self.loc) + 2
        f = _fn(name, na, "I")
        if not f.axioms:
            f.axioms.append(lambda *t: [Le(0, app(f, *t)), Lt(app(f, *t), n)] if not self.loc else [])
            # the corners of one simplex are different points
            f.pair_axioms.append(lambda s, t: [Implies(And(*[Eq(x, y) for x, y in zip(s[:-1], t[:-1])], Not(Eq(s[-1], t[-1]))), Not(Eq(app(f, *s), app(f, *t))))])
            if what == "convex_hull" and self.ndim == 2:
                # no facet appears twice
                f.pair_axioms.append(lambda s, t: [] if not (s[-1].key == t[-1].key == P(0).key) else [
                    Implies(And(*[Eq(x, y) for x, y in zip(s[:-2], t[:-2])], Not(Eq(s[-2], t[-2]))),
                            Not(And(*[Eq(app(f, *s[:-1], P(c)), app(f, *t[:-1], P(c if o else 1 - c))) for c in range(2)]))) for o in (0, 1)])
            if what == "simplices" and self.ndim == 2 and not self.loc:
                f.axioms.append(lambda *t: self._area(f, t[0]) if t[1].key == P(0).key else [])
        return Arr((ax(m), ax(P(k))), lambda i: Num(app(f, *self.loc, *(x for pt in i for x in pt)), int=True), "i")

    def _area(self, f, k):
        """triangles are not degenerate"""
        rd = self.points.reader()
        x = [[num(rd(((app(f, k, P(c)),), (P(q),)))) for q in range(2)] for c in range(3)]
        if any(v.flagged for p in x for v in p):
            return []
        x = [[v.p for v in p] for p in x]
        det = (x[0][0] - x[2][0]) * (x[1][1] - x[2][1]) - (x[1][0] - x[2][0]) * (x[0][1] - x[2][1])
        return [Not(Eq(det, 0))]

    def find_simplex(self, xi, bruteforce=False, tol=None):
        xi = plain(asarr(xi))
        if xi.axes[-1].const() != self.ndim:
            raise ValueError("wrong dimensionality in xi")
        rd = xi.reader()

        def el(i):
            x = [num(rd((*i, (P(k),)))) for k in range(self.ndim)]
            if any(v.flagged for v in x):
                raise Unsupported("nan in find_simplex")
            return Num(self.containing([v.p for v in x]), int=True)
        return Arr(xi.axes[:-1], el, "i")

    def containing(self, x):
        n = len(self.loc) + len(x)
        f = _fn(f"{self.name}.find_simplex", n, "I")
        f.attrs["argsorts"] = ("I",) * len(self.loc) + ("R",) * len(x)
        if not f.axioms:
            f.axioms.append(lambda *t: [Le(-1, app(f, *t)), Lt(app(f, *t), self.n_simplices)] if not self.loc else [])
        return app(f, *self.loc, *x)

    def some_simplex(self, new):
        v = num(new("simplex", (), kind="i").reader()(())).p
        f = v.atoms()[0].fn
        if not f.axioms:
            f.axioms.append(lambda *t: [] if self.loc else [Le(0, app(f, *t)), Lt(app(f, *t), self.n_simplices)])
        return Num(v, int=True)


# ------------------------------------------------------------------ scipy.interpolate.griddata
def griddata_term(n, point, value, target, method):
    """Some function of the grid, the column of values and the target, which passes through the
    grid points; nan outside of the convex hull (except method nearest)"""
    d = len(target)
    ctx().assumptions.add("scipy.interpolate.griddata interpolates every column of the values by itself with a function determined by grid, values and method, equal to the value at a grid point, nan outside of the convex hull (not for method nearest)")
    j = L._fresh_box("g", [n])[0]
    v, ps = num(value(j)), [num(point(j, k)) for k in range(d)]
    ts = [num(t) for t in target]
    if v.flagged or any(x.flagged for x in (*ps, *ts)):
        raise Unsupported("griddata with nan or infinite values")
    a = L.agg("griddata", [j.atoms()[0]], [n], TRUE, (v.p, *[x.p for x in ps]), (P(METHODS.index(method)), *[x.p for x in ts]))
    if method == "nearest":
        out = FALSE
    elif d == 1:
        first, last = (L.order_stat(k, [n], lambda i: num(point(i, 0)).p, None) for k in ("min", "max"))
        out = Or(Lt(ts[0].p, first), Lt(last, ts[0].p))
    else:
        t = Delaunay(Arr((ax(n), ax(P(d))), lambda i: _coord(i, point, d)))
        out = Lt(t.containing([x.p for x in ts]), 0)
    return Num(Poly.atom(a), out)


METHODS = ["linear", "nearest", "cubic"]


def _coord(i, point, d):
    r = num(point(i[0][0], 0)).p
    for k in range(1, d):
        r = ite(Eq(i[1][0], k), num(point(i[0][0], k)).p, r)
    return Num(r)


def griddata(points, values, xi, method="linear", fill_value=float("nan"), rescale=False):
    points, values, xi = (plain(asarr(x)) for x in (points, values, xi))
    if not (isinstance(fill_value, float) and fill_value != fill_value) or rescale:
        raise Unsupported("griddata with fill value or rescaling")
    d = 1 if points.ndim == 1 else points.axes[-1].const()
    if method not in METHODS or method == "cubic" and d is not None and d > 2:
        raise ValueError(f"Unknown interpolation method {method!r} for {d} dimensional data")
    if d is None:
        raise Unsupported("griddata in unknown dimensions")
    n = points.axes[0].size
    rp, rv, rx = points.reader(), values.reader(), xi.reader()
    if A.axes_equal(points.axes[0], values.axes[0]) is not True and not ctx().fork(Eq(n, values.axes[0].size)):
        raise ValueError("different number of values and points")
    point = (lambda j, k: rp(((j,),))) if points.ndim == 1 else (lambda j, k: rp(((j,), (P(k),))))
    keep = xi.axes if d == 1 else xi.axes[:-1]
    if d > 1 and xi.axes[-1].const() != d:
        raise ValueError("number of dimensions in xi does not match x")
    m = len(keep)

    def el(i):
        t = [rx(i[:m])] if d == 1 else [rx((*i[:m], (P(k),))) for k in range(d)]
        return griddata_term(n, point, lambda j: rv(((j,), *i[m:])), t, method)
    return Arr((*keep, *values.axes[1:]), el, "f")
