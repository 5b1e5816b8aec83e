"""Contracts of pyirf/interpolation"""
from engine.harness import Contract, contract

M = "pyirf.interpolation."


class Grid:
    """grid points of one to three dimensions, and a target"""

    def __init__(self, b, dims=(1, 2, 3), n=None):
        self.d = b.choice("grid_dim", list(dims)) if dims else b.dim("grid_dim", 1, None if b.symbolic else 4)
        self.n = b.dim("n_points", n or self.d + 1, None if b.symbolic else b.rng.choice([4, 7, 40]))
        gen = lambda r: r.choice([0.0, 1.0, 2.0, r.uniform(-3, 3)])
        self.points = b.array("grid_points", (self.n, self.d), gen=gen)
        self.target = b.array("target_point", (1, self.d), gen=gen)


def rest_dims(b, name="template", axes=(1, 2)):
    """the remaining axes of the templates"""
    k = b.choice(name + " axes", list(axes))
    return tuple(b.dim(f"{name}_{i}", 1, None if b.symbolic else 3) for i in range(k))


class _Nearest(Contract):
    prop = "P28"
    samples = (60, 400)

    def inputs(self, b):
        g = Grid(b, None, n=1)
        rest = rest_dims(b)
        o = b.choice("norm_ord", ["default", 1, 2, 3, 4, 2.0, 6, 0, -1, 1.5, float("inf"), float("nan"), "fro", None])
        v = b.array("values", (g.n, *rest), nan=True)
        q = b.choice("unit", [False, True])
        if q:
            v = b.const(v, "sr-1")
        flat = b.choice("target", ["row", "flat"]) == "flat"
        t = g.target[0] if flat else g.target
        return dict(grid=g.points, values=v, kw={} if o == "default" else {"norm_ord": o}, target=t, _g=g, _rest=rest, _o=2 if o == "default" else o)

    def valid(o):
        return isinstance(o, (int, float)) and o == o and o not in (float("inf"), float("-inf")) and o > 0 and o == int(o)

    raises = [(ValueError, lambda S, a: S.true(not _Nearest.valid(a["_o"])))]

    def make(self, f, a):
        return f(a["grid"], a["values"], **a["kw"])

    def call(self, f, a):
        return self.make(f, a)(a["target"])

    def post(self, S, a, r):
        g, v, rest, o = a["_g"], a["values"], a["_rest"], int(a["_o"])
        yield "shape", S.shape_is(r, *rest)
        yield "unit", S.same_unit(r, v) if S.has_unit(v) else S.true(not S.has_unit(r))
        r, v = S.to(r, None), S.to(v, None)
        dist = lambda i: S.sum((g.d,), lambda k: S.pow(S.abs(S.at(g.points, i, k) - S.at(g.target, 0, k)), o))
        if S.symbolic:
            # the first one, as documented
            j = S.argmin(g.n, dist)
            same = lambda x, y: S.Or(S.And(S.isnan(x), S.isnan(y)), S.And(S.Not(S.isnan(x)), S.Not(S.isnan(y)), S.eq(x, y)))
            yield "template of the nearest grid point", rest, lambda *i: same(S.at(r, *i), S.at(v, j, *i))
        else:
            best = min(dist(i) for i in range(g.n))
            near = [i for i in range(g.n) if dist(i) <= best * (1 + 1e-9) + 1e-300]
            np = S.np
            yield "template of a nearest grid point", any(np.array_equal(np.asarray(r), np.asarray(v)[i], equal_nan=True) for i in near)


@contract
class NearestNeighbor(_Nearest):
    target = M + "nearest_neighbor_searcher:BaseNearestNeighborSearcher"


@contract
class NearestParametrized(_Nearest):
    target = M + "nearest_neighbor_searcher:ParametrizedNearestNeighborSearcher"

    def make(self, f, a):
        return f(grid_points=a["grid"], params=a["values"], **a["kw"])


@contract
class NearestDiscretePdf(_Nearest):
    target = M + "nearest_neighbor_searcher:DiscretePDFNearestNeighborSearcher"

    def inputs(self, b):
        a = super().inputs(b)
        kw = a["kw"]
        if b.choice("normalization", [False, True]):
            kw["normalization"] = self.get(M + "base_interpolators:PDFNormalization").CONE_SOLID_ANGLE
        return dict(a, edges=b.edges("bin_edges", a["_rest"][-1] + 1))

    def make(self, f, a):
        return f(a["grid"], a["edges"], a["values"], **a["kw"])


# ------------------------------------------------------------------ P26
COORD = dict(gen=lambda r: r.choice([0.0, 1.0, r.uniform(-3, 3), r.uniform(-30, 30)]))


@contract
class LineCoefficients(Contract):
    prop = "P26"
    target = M + "moment_morph_interpolator:linesegment_1D_interpolation_coefficients"
    samples = (60, 400)

    def inputs(self, b):
        p, t = b.array("grid_points", (2, 1), **COORD), b.array("target_point", (1, 1), **COORD)
        S = b.S
        b.require(S.Not(S.eq(S.at(p, 0, 0), S.at(p, 1, 0))))
        if not b.symbolic:
            b.require(abs(p[0, 0] - p[1, 0]) > 1e-3)
        flat = b.choice("target", ["row", "scalar"]) == "scalar"
        return dict(grid_points=p, target_point=t[0, 0] if flat else t, _t=t, _flat=flat)

    def post(self, S, a, r):
        p, t = a["grid_points"], S.at(a["_t"], 0, 0)
        yield "shape", S.shape_is(r, *((2,) if a["_flat"] else (1, 2)))
        c = [S.at(r, i) if a["_flat"] else S.at(r, 0, i) for i in range(2)]
        x = [S.at(p, i, 0) for i in range(2)]
        big = 0 if S.symbolic else abs(c[0]) + abs(c[1])
        yield "sum", S.eq(c[0] + c[1], 1, scale=big)
        yield "target", S.eq(c[0] * x[0] + c[1] * x[1], t, scale=0 if S.symbolic else big * (abs(x[0]) + abs(x[1])))
        for i in range(2):
            yield f"at point {i}", S.Implies(S.eq(t, x[i]), S.And(S.eq(c[i], 1), S.eq(c[1 - i], 0, scale=1)))
        between = S.Or(S.And(S.le(x[0], t), S.le(t, x[1])), S.And(S.le(x[1], t), S.le(t, x[0])))
        yield "inside", S.Implies(between, S.And(*[S.approx_le(0, v, scale=1) for v in c]))


@contract
class TriangleCoefficients(Contract):
    prop = "P26"
    target = M + "moment_morph_interpolator:barycentric_2D_interpolation_coefficients"
    samples = (60, 400)

    def inputs(self, b):
        p, t = b.array("grid_points", (3, 2), **COORD), b.array("target_point", (1, 2), **COORD)
        S = b.S
        x = [[S.at(p, i, k) for k in range(2)] for i in range(3)]
        area = (x[0][0] - x[2][0]) * (x[1][1] - x[2][1]) - (x[1][0] - x[2][0]) * (x[0][1] - x[2][1])
        b.require(S.Not(S.eq(area, 0)) if b.symbolic else abs(area) > 1e-2)
        flat = b.choice("target", ["row", "flat"]) == "flat"
        return dict(grid_points=p, target_point=t[0] if flat else t, _t=t)

    def post(self, S, a, r):
        p, t = a["grid_points"], a["_t"]
        yield "shape", S.shape_is(r, 3)
        c = [S.at(r, i) for i in range(3)]
        x = [[S.at(p, i, k) for k in range(2)] for i in range(3)]
        q = [S.at(t, 0, k) for k in range(2)]
        big = 0 if S.symbolic else sum(abs(v) for v in c)
        yield "sum", S.eq(c[0] + c[1] + c[2], 1, scale=big)
        for k in range(2):
            yield f"target {k}", S.eq(c[0] * x[0][k] + c[1] * x[1][k] + c[2] * x[2][k], q[k], scale=0 if S.symbolic else big * 60)
        for i in range(3):
            at = S.And(S.eq(q[0], x[i][0]), S.eq(q[1], x[i][1]))
            yield f"at point {i}", S.Implies(at, S.And(*[S.eq(c[j], 1 if i == j else 0, scale=1) for j in range(3)]))
        # on the same side of each edge as the opposite corner
        cross = lambda u, v, w: (v[0] - u[0]) * (w[1] - u[1]) - (v[1] - u[1]) * (w[0] - u[0])
        inside = S.And(*[S.le(0, cross(x[i], x[(i + 1) % 3], q) * cross(x[i], x[(i + 1) % 3], x[(i + 2) % 3])) for i in range(3)])
        yield "inside", S.Implies(inside, S.And(*[S.approx_le(0, v, scale=1) for v in c]))


def dot(S, x, y):
    r = x[0] * y[0]
    for p, q in zip(x[1:], y[1:]):
        r = r + p * q
    return r


def sub(x, y):
    return [p - q for p, q in zip(x, y)]


@contract
class SegmentDistance(Contract):
    """every target next to a segment from p to p + v is p + s v + h w for w perpendicular to v.
    Up to the tolerance of 1e-5 of the length around each end"""
    prop = "P26"
    samples = (100, 600)
    target = M + "utils:plumb_point_dist"

    def inputs(self, b):
        p, v = [b.scalar(f"p{k}", **COORD) for k in range(2)], [b.scalar(f"v{k}", **COORD) for k in range(2)]
        s, h = b.scalar("s", gen=lambda r: r.choice([0.0, 1.0, 0.5, -1.0, 2.0, 1e-6, 1 - 1e-6, 1 + 1e-6, -1e-6, r.uniform(-1, 2)])), b.scalar("h", gen=lambda r: r.choice([0.0, r.uniform(-2, 2)]))
        S = b.S
        L = v[0] * v[0] + v[1] * v[1]
        b.require(S.lt(0 if b.symbolic else 1e-4, S.num(L)))
        q = [x + y for x, y in zip(p, v)]
        t = [p[0] + s * v[0] - h * v[1], p[1] + s * v[1] + h * v[0]]
        arr = self.get(M + "utils:np").array
        return dict(line=arr([p, q]), target=arr(t), _s=S.num(s), _h=S.num(h), _L=S.num(L))

    def post(self, S, a, r):
        s, h, L = a["_s"], a["_h"], a["_L"]
        d = S.num(r)
        e = 1e-4
        big = 0 if S.symbolic else max(1, abs(s), abs(h)) ** 2 * max(L, 10)
        d2 = d * d
        out = lambda s: L * (h * h + s * s)
        yield "not negative", S.le(0, d)
        yield "beside the segment", S.Implies(S.And(S.le(e, s), S.le(s, 1 - e)), S.eq(d2, L * h * h, scale=big))
        yield "before its begin", S.Implies(S.le(s, -e), S.eq(d2, out(s), scale=big))
        yield "beyond its end", S.Implies(S.le(1 + e, s), S.eq(d2, out(1 - s), scale=big))
        for n, at in ("begin", s), ("end", 1 - s):
            near = S.And(S.lt(-e, at), S.lt(at, e))
            yield "around its " + n, S.Implies(near, S.Or(S.eq(d2, L * h * h, scale=big), S.eq(d2, out(at), scale=big)))


@contract
class FacetAngle(Contract):
    prop = "P26"
    samples = (100, 600)
    target = M + "utils:point_facet_angle"

    def inputs(self, b):
        n = b.choice("n_dims", [2, 3])
        line, t = b.array("line", (2, n), **COORD), b.array("target", (n,), **COORD)
        S = b.S
        for i in range(2):
            v = [S.at(t, k) - S.at(line, i, k) for k in range(n)]
            b.require(S.lt(0 if b.symbolic else 1e-4, dot(S, v, v)))
        return dict(line=line, target=t, _n=n)

    def post(self, S, a, r):
        n = a["_n"]
        p, q, t = [S.at(a["line"], 0, k) for k in range(n)], [S.at(a["line"], 1, k) for k in range(n)], [S.at(a["target"], k) for k in range(n)]
        ap, bp = sub(t, p), sub(t, q)
        A2, B2, ab = dot(S, ap, ap), dot(S, bp, bp), dot(S, ap, bp)
        c = S.num(r)
        big = 0 if S.symbolic else A2 * B2
        yield "cosine", S.eq(c * S.sqrt(A2) * S.sqrt(B2), ab, scale=0 if S.symbolic else S.sqrt(big))


# ------------------------------------------------------------------ P25
def grid_of(b, n, d, flat=False):
    """n grid points that span a volume in d dimensions, as (plain numbers, array, element)"""
    S = b.S
    pts = gen = None
    if not b.symbolic:
        # corners of a simplex and points in it, in any order
        np = S.np
        c = np.vstack([np.zeros(d), np.diag([b.rng.choice([1.0, 2.5]) for _ in range(d)])])
        w = np.array([[b.rng.random() for _ in range(d + 1)] for _ in range(max(0, n - d - 1))]).reshape(-1, d + 1)
        pts = np.vstack([c, (w / w.sum(axis=1, keepdims=True)) @ c])[:n] + b.rng.choice([0.0, -3.0, 20.0])
        b.rng.shuffle(o := list(range(n)))
        pts = pts[o]
        it = iter(pts.ravel().tolist())
        gen = lambda r: next(it)
    p = b.array("grid_points", (n,) if flat else (n, d), gen=gen)
    at = (lambda i, k=0: S.at(p, i)) if flat else (lambda i, k=0: S.at(p, i, k))
    if d == 1:
        b.require_all((n, n), lambda i, j: S.Implies(S.Not(S.ieq(i, j)), S.Not(S.eq(at(i), at(j)))) if S.symbolic else (i == j or at(i) != at(j)))
    return pts, p, at


def target_gen(b, pts):
    """targets inside, outside and on a corner"""
    if b.symbolic:
        return None
    np = b.S.np
    q = b.rng.choice(["corner", "inside", "outside", "far"])
    w = np.array([b.rng.random() for _ in range(len(pts))])
    t = {"corner": pts[0], "inside": (w / w.sum()) @ pts, "outside": pts[0] + 1.01 * (pts[0] - pts.mean(axis=0)) + 0.01, "far": pts.max(axis=0) + b.rng.uniform(0.1, 30)}[q]
    it = iter([*t.tolist(), *[0.5] * 20])
    return lambda r: next(it)


class _Estimator(Contract):
    """The interpolator and extrapolator are recorders: what they are given is compared"""
    prop = "P25"
    samples = (80, 500)
    cls = ""
    faults = ["none", "no_extrapolator", "grid_list", "grid_object", "grid_complex", "few", "values_list", "values_number", "interpolator", "extrapolator",
              "target_list", "two_targets", "target_dim"]
    TYPE = ("grid_list", "grid_object", "grid_complex", "values_list", "edges_list", "interpolator", "extrapolator", "target_list")

    def recorder(self, kind):
        base = self.get(M + f"base_{kind}s:{self.cls}{kind.capitalize()}")

        class Recorder(base):
            def __init__(self, *a, **k):
                super().__init__(*a, **{n: v for n, v in k.items() if n != "option"})
                self.kw = k

            def interpolate(self, target_point):
                return kind, self, target_point
            extrapolate = interpolate
        return Recorder

    def inputs(self, b):
        S = b.S
        fault = b.choice("fault", self.faults)
        d = b.choice("grid_dim", [1, 2, 3])
        hi = None if b.symbolic else d + 4
        n = b.dim("n_points", 1, d) if fault == "few" else b.dim("n_points", d + 1, hi)
        flat = d == 1 and b.choice("flat grid", [False, True])
        pts, p, at = grid_of(b, n, d, flat)
        m = b.dim("n_values", 1, None if b.symbolic else 8) if fault == "values_number" else n
        if fault == "values_number":
            b.require(S.Not(S.ieq(m, n)))
        a, check = self.values(b, m, fault)
        if fault == "target_dim":
            dt = d + 1 if b.choice("more", [True, False]) or d == 1 else d - 1
        else:
            dt = d
        tg = target_gen(b, pts)
        flat_t = fault != "two_targets" and b.choice("target", ["row", "flat"]) == "flat"
        t = b.array("target_point", (dt,) if flat_t else (2 if fault == "two_targets" else 1, dt), gen=tg)
        kw = dict(a)
        icls, ecls = self.recorder("interpolator"), self.recorder("extrapolator")
        other = {"Parametrized": "DiscretePDF", "DiscretePDF": "Parametrized"}[self.cls]
        wrong = lambda kind: self.get(M + f"base_{kind}s:" + b.choice("class", [f"{other}{kind.capitalize()}", f"Base{kind.capitalize()}"]))
        kw["interpolator_cls"] = wrong("interpolator") if fault == "interpolator" else icls
        opt = b.choice("options", [False, True])
        if opt:
            kw["interpolator_kwargs"] = {"option": 5}
        if fault != "no_extrapolator":
            kw["extrapolator_cls"] = wrong("extrapolator") if fault == "extrapolator" else ecls
            if opt:
                kw["extrapolator_kwargs"] = {"option": 7}
        g = p
        if fault == "grid_list":
            g = [1.0, 2.0, 3.0] if d == 1 else [[0.0] * d, [1.0] * d, [2.0] * d, [3.0] * d, [4.0] * d]
        elif fault in ("grid_object", "grid_complex"):
            g = b.with_dtype(p, "O" if fault == "grid_object" else "complex")
        tt = [0.5] * d if fault == "target_list" else t
        return dict(grid=g, kw=kw, target=tt, _d=d, _n=n, _at=at, _p=p, _t=t, _check=check, _flat=flat_t, _fault=fault, _opt=opt, _stage=lambda: self.stage)

    def call(self, f, a):
        self.stage = 1
        e = f(a["grid"], **a["kw"])
        self.stage = 2
        return e(a["target"])

    def inside(S, a):
        t = a["_t"]
        x = (lambda k: S.at(t, k)) if a["_flat"] else (lambda k: S.at(t, 0, k))
        if a["_d"] == 1:
            n, at = a["_n"], a["_at"]
            return S.And(S.any((n,), lambda i: S.le(at(i), x(0))), S.any((n,), lambda i: S.le(x(0), at(i))))
        return S.in_hull(a["_p"], t.reshape(1, a["_d"]) if a["_flat"] else t)

    def value_error(S, a):
        f, late = a["_fault"], a["_stage"]() == 2
        if f in ("two_targets", "target_dim"):
            return S.true(late)
        if f in ("few", "values_number", "bins"):
            return S.true(not late)
        return S.And(S.true(f == "no_extrapolator" and late), S.Not(_Estimator.inside(S, a))) if f == "no_extrapolator" else S.true(False)

    raises = [(TypeError, lambda S, a: S.true(a["_fault"] in _Estimator.TYPE and (a["_stage"]() == 1) == (a["_fault"] != "target_list"))),
              (ValueError, lambda S, a: _Estimator.value_error(S, a))]

    def post(self, S, a, r):
        kind, rec, t = r
        d, n, at = a["_d"], a["_n"], a["_at"]
        yield "interpolates inside, extrapolates outside", S.Iff(S.true(kind == "interpolator"), _Estimator.inside(S, a))
        yield "options", S.true(rec.kw.get("option") == ({"interpolator": 5, "extrapolator": 7}[kind] if a["_opt"] else None))
        yield "target shape", S.shape_is(t, 1, d)
        given = (lambda k: S.at(a["_t"], k)) if a["_flat"] else (lambda k: S.at(a["_t"], 0, k))
        for k in range(d):
            yield f"target {k}", S.eq(S.at(t, 0, k), given(k))
        yield "grid shape", S.shape_is(rec.grid_points, n, d)
        if d == 1:
            o = S.argsort(n, at)
            yield "ascending grid", (n, n), lambda i, j: S.Implies(S.le(i, j), S.le(S.at(rec.grid_points, i, 0), S.at(rec.grid_points, j, 0)))
        else:
            o = lambda i: i
        for k in range(d):
            yield f"grid {k}", (n,), lambda i: S.eq(S.at(rec.grid_points, i, k), at(o(i), k))
        yield from a["_check"](S, rec, o)


def same_values(S, got, given, dims, o):
    """got[i, ...] = given[o(i), ...]"""
    yield "values shape", S.shape_is(got, *dims)
    yield "values belong to their grid point", dims, lambda i, *j: S.eq(S.at(got, i, *j), S.at(given, o(i), *j))


@contract
class ParametrizedEstimator(_Estimator):
    target = M + "component_estimators:ParametrizedComponentEstimator"
    cls = "Parametrized"

    def values(self, b, m, fault):
        rest = () if b.choice("scalar parameters", [False, True]) else rest_dims(b)
        v = b.array("params", (m, *rest))

        def check(S, rec, o):
            if not rest:
                yield from same_values(S, rec.params, v.reshape(m, 1), (m, 1), o)
            else:
                yield from same_values(S, rec.params, v, (m, *rest), o)
        return {"params": [[1.0], [2.0]] if fault == "values_list" else v}, check


@contract
class DiscretePdfEstimator(_Estimator):
    target = M + "component_estimators:DiscretePDFComponentEstimator"
    cls = "DiscretePDF"
    faults = _Estimator.faults + ["edges_list", "bins"]

    def values(self, b, m, fault):
        S = b.S
        rest = rest_dims(b) if b.choice("remaining axes", [False, True]) else ()
        k = b.dim("n_bins", 1, None if b.symbolic else 4)
        l = b.dim("other_n_bins", 1, None if b.symbolic else 6) if fault == "bins" else k
        if fault == "bins":
            b.require(S.Not(S.ieq(k, l)))
        e = b.edges("bin_edges", l + 1)
        dims = (m, *rest, k)
        v = b.array("binned_pdf", dims, nonneg=True)

        def check(S, rec, o):
            yield from same_values(S, rec.binned_pdf, v, dims, o)
            yield "edges shape", S.shape_is(rec.bin_edges, k + 1)
            yield "edges", (k + 1,), lambda i: S.eq(S.at(rec.bin_edges, i), S.at(e, i))
        return {"bin_edges": [0.0, 1.0] if fault == "edges_list" else e, "binned_pdf": [[1.0]] if fault == "values_list" else v}, check


# ------------------------------------------------------------------ the nearest simplex
@contract
class SimplexOfFacet(Contract):
    """a triangle with the edge, if there is one"""
    prop = "P26"
    target = M + "utils:find_simplex_to_facet"
    samples = (150, 1000)
    EDGES = [(0, 1), (1, 0), (0, 2), (2, 0), (1, 2), (2, 1)]

    def inputs(self, b):
        S = b.S
        if b.symbolic:
            n = b.dim("n_simplices", 1)
            p = b.array("simplices_points", (n, 3, 2))
            k = S.num(b.scalar("k", kind="i"))
            b.require(S.And(S.le(0, k), S.lt(k, n)))
            e = b.choice("edge", self.EDGES)
            f = self.get(M + "utils:np").array([[S.at(p, k, c, q) for q in range(2)] for c in e])
        else:
            from contracts.extrapolation import Around
            g = Around(b)
            t = g.tri
            k = b.rng.randrange(len(t.convex_hull))
            f = t.convex_hull[k]
            f = t.points[f[::-1] if b.choice("order", [False, True]) else f]
            p, n = t.points[t.simplices], len(t.simplices)
        same = lambda i, c, d: S.And(*[S.eq(S.at(p, i, c, q), S.at(p, i, d, q)) for q in range(2)])
        b.require_all((n,), lambda i: S.Not(S.Or(same(i, 0, 1), same(i, 0, 2), same(i, 1, 2))))
        return dict(simplices_points=p, facet_points=f, _n=n)

    def post(self, S, a, r):
        p, f = a["simplices_points"], a["facet_points"]
        r = S.num(r)
        yield "index", S.And(S.le(0, r), S.lt(r, a["_n"]))
        for i in range(2):
            yield f"has corner {i}", S.Or(*[S.And(*[S.eq(S.at(p, r, c, q), S.at(f, i, q)) for q in range(2)]) for c in range(3)])


@contract
class NearestFacet(Contract):
    """a facet at minimal distance, among those at the same distance one with the smallest cosine of
    the angle"""
    prop = "P26"
    target = M + "utils:find_nearest_facet"
    samples = (150, 1000)

    def _callees():
        from engine.opaque import callee
        one = lambda name, what: {M + "utils:" + name: callee(M + "utils:" + name, lambda v, new: new(what, ()))}
        return {**one("plumb_point_dist", "distance"), **one("point_facet_angle", "cosine")}
    replace = _callees()

    def inputs(self, b):
        S = b.S
        if b.symbolic:
            n = b.dim("n_facets", 1)
            f, t = b.array("qhull_points", (n, 2, 2)), b.array("target", (2,))
        else:
            from contracts.extrapolation import Around
            g = Around(b)
            f, t = g.points[g.tri.convex_hull], g.t
            n = len(f)
        return dict(qhull_points=f, target=t, _n=n)

    def post(self, S, a, r):
        f, t, n = a["qhull_points"], a["target"], a["_n"]
        dist, cosine = (S.generic(n, lambda i, g=self.get(M + "utils:" + g): S.num(g(S.row(f, 0, i), t))) for g in ("plumb_point_dist", "point_facet_angle"))
        r = S.num(r)
        yield "index", S.And(S.le(0, r), S.lt(r, n))
        yield "at the smallest distance", (n,), lambda i: S.le(dist(r), dist(i))
        yield "under the largest angle", (n,), lambda i: S.Implies(S.eq(dist(r), dist(i)) if S.symbolic else dist(r) == dist(i), S.le(cosine(r), cosine(i)))


@contract
class NearestSimplex(Contract):
    """a triangle with an edge of the hull at minimal distance to the target; among edges at the same
    distance one seen under the largest angle"""
    prop = "P26"
    target = M + "utils:find_nearest_simplex"
    samples = (200, 2000)

    def _callees():
        from engine.opaque import callee
        from engine.arrays import num, asarr, Num
        from engine.terms import app, Le, Lt

        def one(name, over):
            def result(v, new):
                n = asarr(v[over]).axes[0].size
                k = num(new("index", (), kind="i").reader()(())).p
                f = k.atoms()[0].fn
                if not f.axioms:
                    f.axioms.append(lambda *t: [] if t else [Le(0, app(f)), Lt(app(f), n)])
                return Num(k, int=True)
            return {M + "utils:" + name: callee(M + "utils:" + name, result)}
        return {**one("find_nearest_facet", "qhull_points"), **one("find_simplex_to_facet", "simplices_points")}
    replace = _callees()

    def inputs(self, b):
        if b.symbolic:
            from engine.geometry import Delaunay
            t = Delaunay(b.array("points", (b.dim("n_points", 3), 2)))
            return dict(triangulation=t, target=b.array("target", (2,)), _g=None)
        from contracts.extrapolation import Around
        g = Around(b)
        return dict(triangulation=g.tri, target=g.t, _g=g)

    def post(self, S, a, r):
        if S.symbolic:
            # the simplex with the nearest facet
            t = a["triangulation"]
            f = t.points[t.convex_hull]
            k = self.get(M + "utils:find_nearest_facet")(f, a["target"])
            r_ = self.get(M + "utils:find_simplex_to_facet")(t.points[t.simplices], f[k])
            yield "simplex of the nearest facet", S.eq(S.num(r), S.num(r_))
            return
        np, g = S.np, a["_g"]
        p, t, tri = g.points, g.t, g.tri
        yield "index", 0 <= int(r) < len(tri.simplices)
        d, ang = [], []
        for i, j in tri.convex_hull:
            u = p[j] - p[i]
            s = min(1, max(0, (t - p[i]) @ u / (u @ u)))
            d.append(np.hypot(*(t - p[i] - s * u)))
            ang.append(g.angle((i, j)))
        tol = 1e-4 * max(1e-9, min(d), np.ptp(p, axis=0).max() * 0.1)
        near = [k for k in range(len(d)) if d[k] <= min(d) + tol]
        mine = set(tri.simplices[int(r)].tolist())
        have = [k for k in near if set(tri.convex_hull[k].tolist()) <= mine]
        yield "a nearest edge", len(have) > 0
        # only if distances are clearly the same (the target is next to a corner) or clearly different
        exact = [k for k in near if abs(d[k] - min(d)) < 1e-9 * max(1, min(d))]
        if len(exact) == len(near):
            yield "under the largest angle", max(ang[k] for k in have) >= max(ang[k] for k in near) - 1e-4
