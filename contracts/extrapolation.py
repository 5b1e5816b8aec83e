"""Contracts of the extrapolators (pyirf/interpolation/*_extrapolator.py)"""
from engine.harness import Contract, contract
from contracts.interpolation import M, dot, grid_of, rest_dims, target_gen
from contracts.distributions import MM, _Distribution, Bins

N, V = M + "nearest_simplex_extrapolator:", M + "visible_edges_extrapolator:"


def nearest():
    from engine.opaque import callee
    return {M + "utils:find_nearest_simplex": callee(M + "utils:find_nearest_simplex", lambda v, new: v["triangulation"].some_simplex(new))}


def barycentric(x, t):
    """weights of the corners x of a triangle for t, and the determinant they are over"""
    d = (x[1][1] - x[2][1]) * (x[0][0] - x[2][0]) + (x[2][0] - x[1][0]) * (x[0][1] - x[2][1])
    a = (x[1][1] - x[2][1]) * (t[0] - x[2][0]) + (x[2][0] - x[1][0]) * (t[1] - x[2][1])
    b = (x[2][1] - x[0][1]) * (t[0] - x[2][0]) + (x[0][0] - x[2][0]) * (t[1] - x[2][1])
    return a, b, d - a - b, d


def iter_of(x):
    it = iter([float(q) for q in x])
    return lambda r: next(it)


class _Linear(Contract):
    prop = "P30"
    samples = (80, 500)

    def setup(self, b, d):
        S = self.S = b.S
        n = b.dim("n_points", d + 1, None if b.symbolic else d + 4)
        flat = d == 1 and b.choice("flat grid", [False, True])
        if d == 1:
            p = b.edges("grid_points", n)
            pts, at = None if b.symbolic else p.reshape(n, 1), lambda i: S.at(p, i)
            p = p if flat else p.reshape(n, 1)
        else:
            pts, p, at = grid_of(b, n, d)
        flat_t = d == 2 and b.choice("target", ["row", "flat"]) == "flat"
        rest = () if b.choice("scalar parameters", [False, True]) else rest_dims(b)
        v = b.array("params", (n, *rest), gen=lambda r: r.choice([0.0, 1.0, r.uniform(-3, 3), r.uniform(-1e4, 1e4)]))
        t = b.array("target_point", (d,) if flat_t else (1, d), gen=target_gen(b, pts))
        x = [S.at(t, k) if flat_t else S.at(t, 0, k) for k in range(d)]
        return dict(grid_points=p, params=v, target_point=t, _at=at, _n=n, _rest=rest, _x=x, _d=d)

    def call(self, f, a):
        return f(a["grid_points"], a["params"])(a["target_point"])


@contract
class SegmentExtrapolation(_Linear):
    """below the grid the line through the first two points, else the one through the last two"""
    target = N + "ParametrizedNearestSimplexExtrapolator"

    def inputs(self, b):
        return self.setup(b, 1)

    def post(self, S, a, r):
        n, at, rest, t, v = a["_n"], a["_at"], a["_rest"], a["_x"][0], a["params"]
        out = rest or (1,)
        yield "shape", S.shape_is(r, 1, *out)
        get = lambda i, j: S.at(v, i, *j) if rest else S.at(v, i)

        def line(i0, i1, j):
            x0, x1, y0, y1 = at(i0), at(i1), get(i0, j), get(i1, j)
            z = S.at(r, 0, *j)
            big = 0 if S.symbolic else (abs(y0) + abs(y1)) * (abs(t) + abs(x0) + abs(x1))
            return S.eq((z - y0) * (x1 - x0), (y1 - y0) * (t - x0), scale=big)
        below = S.lt(t, at(0))
        yield "below the grid", out, lambda *j: S.Implies(below, line(0, 1, j))
        yield "above the grid", out, lambda *j: S.Implies(S.Not(below), line(n - 2, n - 1, j))


@contract
class TriangleExtrapolation(_Linear):
    """the linear function through the corners of the nearest triangle"""
    target = N + "ParametrizedNearestSimplexExtrapolator"
    replace = nearest()

    def inputs(self, b):
        return self.setup(b, 2)

    def post(self, S, a, r):
        rest, t, v, at = a["_rest"], a["_x"], a["params"], a["_at"]
        out = rest or (1,)
        yield "shape", S.shape_is(r, 1, *out)
        c = S.triangle(a["grid_points"], t, self.get(M + "utils:find_nearest_simplex"), inside=False)
        x = [[at(i, k) for k in range(2)] for i in c]
        *w, d = barycentric(x, t)

        def value(*j):
            y = [S.at(v, i, *j) if rest else S.at(v, i) for i in c]
            big = 0 if S.symbolic else max(abs(q) for q in y) * (1 + sum(abs(q) for q in w)) * 10
            return S.eq(S.at(r, 0, *j) * d, w[0] * y[0] + w[1] * y[1] + w[2] * y[2], scale=big)
        yield "linear function of the nearest triangle", out, value


@contract
class ExtrapolatorDimensions(Contract):
    prop = "P30"
    samples = (30, 100)
    target = N + "ParametrizedNearestSimplexExtrapolator"
    raises = [(NotImplementedError, lambda S, a: S.true(a["_d"] > 2))]

    def inputs(self, b):
        d = b.choice("grid_dim", [1, 2, 3, 4])
        n = b.dim("n_points", d + 1, None if b.symbolic else d + 3)
        pts, p, at = grid_of(b, n, d)
        rest = rest_dims(b)
        pdf = b.choice("class", [False, True])
        self.cls = self.get(N + "MomentMorphNearestSimplexExtrapolator") if pdf else None
        if pdf:
            return dict(grid_points=p, bin_edges=b.edges("bin_edges", rest[-1] + 1), binned_pdf=b.array("pdf", (n, *rest), nonneg=True), _d=d)
        return dict(grid_points=p, params=b.array("params", (n, *rest)), _d=d)

    def call(self, f, a):
        k = {n: v for n, v in a.items() if n[0] != "_"}
        return (self.cls or f)(**k)

    def post(self, S, a, r):
        yield "made", S.true(r is not None)


# ------------------------------------------------------------------ blending over the visible edges
GRIDS = "grids of 3 to 9 points in two dimensions (general position, regular, elongated), targets up to 30 grid sizes away"


class Around:
    """a genuine grid and a target outside of it"""

    def __init__(self, b):
        np = self.np = b.S.np
        from scipy.spatial import Delaunay
        r = b.rng
        gen = np.random.default_rng(r.randrange(2 ** 32))
        kind = r.choice(["general", "general", "regular", "long"])
        n = r.randrange(3, 9)
        if kind == "general":
            p = gen.uniform(-1, 1, (n, 2)) * r.choice([1.0, 50.0])
        elif kind == "regular":
            p = np.array([[i, j] for i in range(3) for j in range(3)], float)[gen.permutation(9)[:max(n, 5)]]
        else:
            p = np.array([[20, 0], [20, 180], [40, 0], [40, 180], [60, 0], [60, 180.]])[gen.permutation(6)]
        if r.random() < 0.25:
            p = p * 1e-4
        try:
            self.tri = Delaunay(p)
        except Exception:
            b.require(False)
        b.require(len(self.tri.coplanar) == 0)
        t = p.mean(axis=0) + gen.normal(size=2) * np.ptp(p, axis=0) * r.choice([1, 2, 10])
        if kind == "regular" and r.random() < 0.5:
            t = np.round(t)
        if r.random() < 0.15:
            # in line with an edge
            i, j = self.tri.convex_hull[r.randrange(len(self.tri.convex_hull))]
            t = p[i] + (p[i] - p[j]) * r.choice([0.5, 1.0, 1.7])
            if r.random() < 0.5:
                # not quite
                t = t + (p[i] - p[j])[::-1] * [1, -1] * r.choice([-1, 1]) * 10 ** r.uniform(-6, -2)
        b.require(bool(self.tri.find_simplex(t) < 0))
        self.points, self.t = p, t
        c = p.mean(axis=0)
        size = np.ptp(p, axis=0).max()
        self.sure, self.maybe = set(), set()
        for i, j in self.tri.convex_hull:
            d = p[j] - p[i]
            d = d / np.hypot(*d)
            side = lambda q: d[0] * (q - p[i])[1] - d[1] * (q - p[i])[0]
            s = side(t) * np.sign(side(c))
            if s < 1e-9 * size:
                self.maybe.add(frozenset((int(i), int(j))))
            if s < -1e-9 * size:
                self.sure.add(frozenset((int(i), int(j))))
        b.log["grid"], b.log["target"] = p.tolist(), t.tolist()

    def pair(self, f):
        """the corners of a facet, by number"""
        return frozenset(int(self.np.where((self.points == q).all(axis=1))[0][0]) for q in f)

    def angle(self, f):
        np = self.np
        i, j = f
        u, v = self.points[i] - self.t, self.points[j] - self.t
        return abs(np.arctan2(u[0] * v[1] - u[1] * v[0], u @ v))


@contract
class VisibleFacets(Contract):
    """the edges of the convex hull that separate the target from the grid, each once"""
    prop = "P30"
    target = V + "find_visible_facets"
    samples = (150, 1500)

    def inputs(self, b):
        if not b.symbolic:
            g = Around(b)
            return dict(grid_points=g.points, target_point=g.t.reshape(1, 2) if b.choice("target", [False, True]) else g.t, _g=g)
        S, n = b.S, b.dim("n_points", 3)
        p = b.array("grid_points", (n, 2))
        b.require_all((n, n), lambda i, j: S.Or(S.ieq(i, j), *[S.Not(S.eq(S.at(p, i, k), S.at(p, j, k))) for k in range(2)]))
        t = b.array("target_point", (1, 2))
        x = [S.at(t, 0, k) for k in range(2)]
        return dict(grid_points=p, target_point=t[0] if b.choice("target", ["row", "flat"]) == "flat" else t, _x=x, _n=n)

    def call(self, f, a):
        from engine import npshim
        del npshim.UNIQUE[:]
        return f(a["grid_points"], a["target_point"])

    def post(self, S, a, r):
        if not S.symbolic:
            g = a["_g"]
            yield "shape", r.ndim == 3 and r.shape[1:] == (2, 2)
            got = [g.pair(f) for f in r]
            yield "each once", len(set(got)) == len(got)
            yield "all visible ones", g.sure <= set(got)
            yield "no other", set(got) <= g.maybe
            return
        from engine import npshim
        from engine.geometry import Delaunay
        from engine.terms import P, Unsupported
        axis = r.axes[0] if len(r.axes) == 3 else None
        # where a facet is found (the witnesses): in the order of np.unique or in that of the hull
        same_place = [(lambda t: t, lambda f: f)]
        if axis is None or len(axis.base) != 1 or len(npshim.UNIQUE) > 1 or not npshim.UNIQUE and axis.base[0] != Delaunay(a["grid_points"]).n_facets:
            raise Unsupported("visible facets found in another way")
        row_of, place_of = (npshim.UNIQUE or same_place)[0]
        m = axis.base[0]
        here = lambda t: S.And(S.le(0, t), S.lt(t, m), axis.cond((t,)))
        p, n = a["grid_points"], a["_n"]
        tri = Delaunay(p)
        hull, nf = tri.convex_hull, tri.n_facets
        corner = lambda f, c: [S.at(p, S.at(hull, f, c), k) for k in range(2)]
        centre = [S.sum((n,), lambda i: S.at(p, i, k)) / n for k in range(2)]
        rd = r.reader()
        found = lambda t, c: [S.num(rd(((t,), (P(c),), (P(k),)))) for k in range(2)]
        same = lambda x, y: S.And(*[S.eq(u, v) for u, v in zip(x, y)])

        def cross(f, x):
            u, v = corner(f, 0), corner(f, 1)
            return (v[0] - u[0]) * (x[1] - u[1]) - (v[1] - u[1]) * (x[0] - u[0])

        def separates(f):
            s, t = cross(f, centre), cross(f, a["_x"])
            return S.Or(S.And(S.lt(s, 0), S.lt(0, t)), S.And(S.lt(0, s), S.lt(t, 0)))
        is_facet = lambda t, f: S.Or(S.And(same(found(t, 0), corner(f, 0)), same(found(t, 1), corner(f, 1))),
                                     S.And(same(found(t, 0), corner(f, 1)), same(found(t, 1), corner(f, 0))))
        inside = lambda f: S.And(S.le(0, f), S.lt(f, nf))
        yield "shape", S.And(S.ieq(r.axes[1].size, 2), S.ieq(r.axes[2].size, 2))
        # all visible ones: a facet has a place, that of a facet with the same corners, which is kept
        index = lambda f, c: S.num(S.at(hull, f, c))
        other = lambda f: row_of(place_of(f))
        straight = lambda f: S.And(*[S.ieq(index(other(f), c), index(f, c)) for c in range(2)])
        turned = lambda f: S.And(*[S.ieq(index(other(f), 1 - c), index(f, c)) for c in range(2)])
        yield "place of a facet", (nf,), lambda f: S.And(S.le(0, place_of(f)), S.lt(place_of(f), m), S.Or(straight(f), turned(f)))
        yield "all visible ones", (nf,), lambda f: S.Implies(S.And(separates(f), straight(f)), S.And(axis.cond((place_of(f),)), is_facet(place_of(f), f)))
        yield "all visible ones, turned", (nf,), lambda f: S.Implies(S.And(separates(f), turned(f)), S.And(axis.cond((place_of(f),)), is_facet(place_of(f), f)))
        yield "no other", (m,), lambda t: S.Implies(here(t), S.And(inside(row_of(t)), separates(row_of(t)), is_facet(t, row_of(t))))
        twice = lambda t, s: S.Or(S.And(same(found(t, 0), found(s, 0)), same(found(t, 1), found(s, 1))),
                                  S.And(same(found(t, 0), found(s, 1)), same(found(t, 1), found(s, 0))))
        # instances of the precondition: the grid points are different
        number = lambda t, c: S.num(S.at(hull, row_of(t), c)).p
        apart = lambda t, s: S.And(*[S.Or(S.ieq(number(t, c), number(s, d)), *[S.Not(S.eq(S.at(p, number(t, c), k), S.at(p, number(s, d), k))) for k in range(2)])
                                     for c in range(2) for d in range(2)])
        yield "each once", (m, m), lambda t, s: S.Implies(S.And(here(t), here(s), S.lt(t, s), apart(t, s)), S.Not(twice(t, s)))


def cosine():
    from engine.opaque import callee
    name = M + "utils:point_facet_angle"
    return {name: callee(name, lambda v, new: new("cosine", ()))}


@contract
class BlendingWeights(Contract):
    """powers of the angles under which the facets are seen, adding up to one"""
    prop = "P30"
    target = V + "compute_extrapolation_weights"
    samples = (150, 1500)
    replace = cosine()

    def inputs(self, b):
        S = b.S
        g = None
        if b.symbolic:
            n, m = b.dim("n_facets", 1), b.choice("m", [0, 1, 2, 3, 7])
            f = b.array("visible_facet_points", (n, 2, 2))
        else:
            g = Around(b)
            m = b.choice("m", [0, 1, 2, 3, 7])
            l = sorted(tuple(sorted(x)) for x in g.sure)
            b.require(len(l) > 0)
            n, f = len(l), g.points[S.np.array(l)]
        t = b.array("target_point", (1, 2), gen=None if b.symbolic else iter_of(g.t))
        x = [S.at(t, 0, k) for k in range(2)]
        # the target is on none of the grid points
        end = lambda i, j: [S.at(f, i, j, k) - x[k] for k in range(2)]
        b.require_all((n, 2), lambda i, j: S.lt(0, dot(S, end(i, j), end(i, j))))
        flat = b.choice("target", ["row", "flat"]) == "flat"
        if flat:
            t = t[0]
        if b.symbolic:
            cosine, x_ = self.get(M + "utils:point_facet_angle"), t if flat else t[0]
            angle = lambda i: S.acos(S.clip(S.num(cosine(S.row(f, 0, i), x_)), -1, 1))
        else:
            angle = lambda i: g.angle(l[i])
        power = lambda i: S.pow(angle(i), m + 1)
        # and one facet is not in line with it
        total = S.sum((n,), power)
        b.require(S.lt(0 if b.symbolic else 1e-3, total))
        return dict(visible_facet_points=f, target_point=t, m=m, _n=n, _power=power, _total=total)

    def post(self, S, a, r):
        n = a["_n"]
        yield "shape", S.shape_is(r, n)
        yield "not negative", (n,), lambda i: S.le(0, S.at(r, i))
        yield "powers of the angles", (n,), lambda i: S.eq(S.at(r, i) * a["_total"], a["_power"](i), scale=1, rtol=1e-4)
        yield "sum", S.eq(S.sum((n,), lambda i: S.at(r, i)), 1, scale=1)


@contract
class VisibleEdgesBlend(_Linear):
    """the linear functions of the triangles at the visible facets, weighted"""
    target = V + "ParametrizedVisibleEdgesExtrapolator"
    samples = (150, 1500)

    def _callees():
        from engine.arrays import asarr, ax, num, Num
        from engine.opaque import callee
        from engine.terms import app, Le, Lt, P

        def facets(v, new):
            L = num(new("count", (), kind="i").reader()(())).p
            f = L.atoms()[0].fn
            if not f.axioms:
                f.axioms.append(lambda *t: [Le(0, app(f, *t))])
            return new("facets", (ax(L), ax(P(2)), ax(P(2))))

        def simplex(v, new):
            n = asarr(v["simplices_points"]).axes[0].size
            r = new("simplex", (), kind="i")
            k = num(r.reader()(())).p
            f = k.atoms()[0].fn
            if not f.axioms:
                f.axioms.append(lambda *t: [Le(0, app(f, *t)), Lt(app(f, *t), n)])
            return r
        weights = lambda v, new: new("weight", (asarr(v["visible_facet_points"]).axes[0],))
        one = lambda name, f: {name: callee(name, f)}
        return {**one(V + "find_visible_facets", facets), **one(M + "utils:find_simplex_to_facet", simplex),
                **one(V + "compute_extrapolation_weights", weights), **nearest()}
    replace = _callees()

    def inputs(self, b):
        S = b.S
        if b.symbolic:
            a = self.setup(b, 2)
        else:
            self.S = S
            g = Around(b)
            n, flat = len(g.points), b.choice("target", ["row", "flat"]) == "flat"
            rest = () if b.choice("scalar parameters", [False, True]) else rest_dims(b)
            v = b.array("params", (n, *rest), gen=lambda r: r.choice([0.0, 1.0, r.uniform(-3, 3), r.uniform(-1e4, 1e4)]))
            t = g.t if flat else g.t.reshape(1, 2)
            a = dict(grid_points=g.points, params=v, target_point=t, _rest=rest, _x=list(g.t))
        m = b.choice("m", [None, 1, 2, 3])
        return dict(a, _m=m)

    def call(self, f, a):
        x = a["grid_points"], a["params"]
        t = a["target_point"]
        e = f(*x, **({} if a["_m"] is None else {"m": a["_m"]}))
        r = e(t)
        tri, get = e.triangulation, self.get
        facets = get(V + "find_visible_facets")(a["grid_points"], t)
        self.n = self.S.num(facets.shape[0])
        self.one = bool(facets.shape[0] <= 1)
        if self.one:
            self.plain = get(N + "ParametrizedNearestSimplexExtrapolator")(*x)(t)
            return r
        weights = get(V + "compute_extrapolation_weights")(facets, t, a["_m"] or 1)
        corners = tri.points[tri.simplices]
        S = self.S
        self.weight = lambda l: S.at(weights, l)
        simplex = S.generic(self.n, lambda l: S.num(get(M + "utils:find_simplex_to_facet")(corners, S.row(facets, 0, l))))
        self.corner = lambda l, c: S.num(S.at(tri.simplices, simplex(l), c))
        return r

    def post(self, S, a, r):
        rest, t, v, p = a["_rest"], a["_x"], a["params"], a["grid_points"]
        out = rest or (1,)
        yield "shape", S.shape_is(r, 1, *out)
        if self.one:
            yield "nearest simplex", out, lambda *j: S.eq(S.at(r, 0, *j), S.at(self.plain, 0, *j))
            return

        def value(l, j):
            i = [self.corner(l, c) for c in range(3)]
            *w, d = barycentric([[S.at(p, k, q) for q in range(2)] for k in i], t)
            y = [S.at(v, k, *j) if rest else S.at(v, k) for k in i]
            return (w[0] * y[0] + w[1] * y[1] + w[2] * y[2]) / d
        big = lambda j: 0 if S.symbolic else 1e4 * sum(abs(self.weight(l)) * abs(value(l, j)) for l in range(int(self.n))) + 1e-3
        yield "blend of the triangles", out, lambda *j: S.eq(S.at(r, 0, *j), S.sum((self.n,), lambda l: self.weight(l) * value(l, j)), scale=big(j))


@contract
class VisibleEdgesExtrapolation(Contract):
    prop = "P30"
    target = V + "ParametrizedVisibleEdgesExtrapolator"
    bounded = GRIDS + "; up to 4 parameters, m up to 3"
    samples = (150, 1500)

    def inputs(self, b):
        np = b.S.np
        g = Around(b)
        gen = np.random.default_rng(b.rng.randrange(2 ** 32))
        rest = [(), (1,), (3,), (1, 2), (2, 1), (2, 2)][b.rng.randrange(6)]
        v = gen.normal(size=(len(g.points), *rest)) * b.rng.choice([1.0, 1e5])
        linear = b.choice("linear", [False, True])
        if linear:
            c = gen.normal(size=(3, *rest))
            v = np.tensordot(g.points, c[:2], axes=1) + c[2]
            self.truth = np.tensordot(g.t, c[:2], axes=1) + c[2]
        m = b.choice("m", [None, 1, 2, 3])
        b.log["params"], b.log["m"] = v.tolist(), m
        return dict(grid_points=g.points, params=v, target_point=g.t.reshape(1, 2) if b.choice("target", [False, True]) else g.t, _g=g, _linear=linear, _m=m, _rest=rest)

    def call(self, f, a):
        k = {} if a["_m"] is None else {"m": a["_m"]}
        self.plain = self.get(N + "ParametrizedNearestSimplexExtrapolator")(a["grid_points"], a["params"])(a["target_point"])
        return f(a["grid_points"], a["params"], **k)(a["target_point"])

    def post(self, S, a, r):
        np, g, v, rest = S.np, a["_g"], a["params"], a["_rest"]
        out = rest or (1,)
        yield "shape", r.shape == (1, *out)
        # how far from the values of the grid the extrapolations go
        tri = [s for s in g.tri.simplices]
        p = g.points

        def coefficients(s):
            *w, d = barycentric(p[s], g.t)
            return np.array(w) / d
        scale = max(abs(coefficients(s)).sum() for s in tri) * abs(v).max() + 1e-12
        if a["_linear"]:
            yield "exact for linear parameters", bool(np.allclose(r[0], np.reshape(self.truth, out), rtol=1e-9, atol=1e-8 * scale))
        if len(g.maybe) == 1:
            yield "one visible edge: nearest simplex", bool(np.allclose(r, self.plain, rtol=1e-12, atol=1e-12 * scale))
        if len(g.sure) > 1:
            f = sorted(tuple(sorted(x)) for x in g.sure)
            w = np.array([g.angle(x) for x in f]) ** ((a["_m"] or 1) + 1)
            if w.sum() > 1e-9:
                w = w / w.sum()
                want = 0
                for x, q in zip(f, w):
                    s = next(s for s in tri if set(x) <= set(s.tolist()))
                    want = want + q * np.tensordot(coefficients(s), v[s], axes=1)
                yield "blend of the visible edges", bool(np.allclose(r[0], np.reshape(want, out), rtol=1e-6, atol=1e-5 * scale))


@contract
class VisibleEdgesLine(Contract):
    """one dimension: the same as the nearest simplex"""
    prop = "P30"
    target = V + "ParametrizedVisibleEdgesExtrapolator"
    samples = (60, 300)

    def inputs(self, b):
        n = b.dim("n_points", 2, None if b.symbolic else 6)
        rest = rest_dims(b)
        e = b.edges("grid_points", n).reshape(n, 1)
        v = b.array("params", (n, *rest))
        t = b.array("target_point", (1, 1))
        return dict(grid_points=e, params=v, target_point=t, _rest=rest)

    def call(self, f, a):
        x = a["grid_points"], a["params"]
        self.plain = self.get(N + "ParametrizedNearestSimplexExtrapolator")(*x)(a["target_point"])
        return f(*x)(a["target_point"])

    def post(self, S, a, r):
        rest = a["_rest"]
        yield "shape", S.shape_is(r, 1, *rest)
        yield "nearest simplex", rest, lambda *i: S.eq(S.at(r, 0, *i), S.at(self.plain, 0, *i))


@contract
class Smoothness(Contract):
    """the degree m has to be a positive integer"""
    prop = "P30"
    target = V + "ParametrizedVisibleEdgesExtrapolator"
    samples = (60, 300)
    M = [1, 2, 5, 1.0, 3.0, 0, -1, -3, 1.5, 0.5, -0.5, float("inf"), float("-inf"), float("nan"), "a", "1", None, [1]]
    ok = lambda m: isinstance(m, (int, float)) and m > 0 and m == m and m != float("inf") and m == int(m)
    raises = [(TypeError, lambda S, a: S.true(not isinstance(a["m"], (int, float)) and a["_d"] < 3)),
              (ValueError, lambda S, a: S.true(isinstance(a["m"], (int, float)) and not Smoothness.ok(a["m"]) and a["_d"] < 3)),
              (NotImplementedError, lambda S, a: S.true(a["_d"] > 2))]

    def inputs(self, b):
        d = b.choice("grid_dim", [1, 2, 3])
        n = b.dim("n_points", d + 1, None if b.symbolic else d + 3)
        pts, p, at = grid_of(b, n, d)
        return dict(grid_points=p, params=b.array("params", (n, 2)), m=b.choice("m", self.M), _d=d)

    def post(self, S, a, r):
        yield "degree", S.true(r.m == a["m"])


# ------------------------------------------------------------------ distributions
@contract
class MomentMorphExtrapolation(_Distribution):
    prop = "P30"
    target = N + "MomentMorphNearestSimplexExtrapolator"
    bounded = _Distribution.bounded + "; targets outside of the grid"
    outside = True

    def resolved(self, t, col):
        return False


@contract
class ExtrapolatedDistribution(Contract):
    """what the moment morphing gives is cut at zero and normalised again if it is negative somewhere"""
    prop = "P30"
    target = N + "MomentMorphNearestSimplexExtrapolator"
    samples = (80, 400)

    def _callees():
        from engine.opaque import callee
        from engine.arrays import ax, asarr
        from engine.terms import P
        name = M + "moment_morph_interpolator:moment_morph_estimation"
        shape = lambda v: asarr(v["binned_pdf"]).axes[1:]
        return {name: callee(name, lambda v, new: new("estimate", (ax(P(1)), *shape(v)))), **nearest()}
    replace = _callees()

    def inputs(self, b):
        S = self.S = b.S
        v = Bins(b, self.get)
        d = b.choice("grid_dim", [1, 2])
        n = b.dim("n_points", d + 1, None if b.symbolic else d + 3)
        if d == 1:
            p = b.edges("grid_points", n)
            pts, p = None if b.symbolic else p.reshape(n, 1), p.reshape(n, 1)
        else:
            pts, p, _ = grid_of(b, n, d)
        rest = rest_dims(b, axes=(0, 1))
        q = b.array("binned_pdf", (n, *rest, v.k), nonneg=True, gen=lambda r: r.choice([0.0, r.uniform(0, 5), 1.0]))
        t = b.array("target_point", (1, d), gen=target_gen(b, pts))
        return dict(grid_points=p, bin_edges=v.edges, binned_pdf=q, normalization=v.value, target_point=t, _v=v, _rest=rest, _d=d)

    def call(self, f, a):
        r = f(**{k: a[k] for k in ("grid_points", "bin_edges", "binned_pdf", "normalization")})(a["target_point"])
        self.e = self.estimate(self.S, a)
        return r

    def estimate(self, S, a):
        """moment morphing of the corners of the nearest simplex, with the coefficients for the target"""
        g, t, get = a["grid_points"], a["target_point"], self.get
        morph = lambda i, c: get(MM + "moment_morph_estimation")(bin_edges=a["bin_edges"], binned_pdf=a["binned_pdf"][i], coefficients=c, normalization=a["normalization"])
        if a["_d"] == 1:
            low, high = (morph(i, get(MM + "linesegment_1D_interpolation_coefficients")(g[i], t[0, 0])) for i in ([0, 1], [-2, -1]))
            return lambda *i: S.ite(S.lt(S.at(t, 0, 0), S.at(g, 0, 0)), S.at(low, 0, *i), S.at(high, 0, *i))
        i = S.triangle(g, [S.at(t, 0, k) for k in range(2)], get(M + "utils:find_nearest_simplex"), inside=False)
        i = get(MM + "np").array(i)
        e = morph(i, get(MM + "barycentric_2D_interpolation_coefficients")(g[i], t))
        return lambda *i: S.at(e, 0, *i)

    def post(self, S, a, r):
        v, rest = a["_v"], a["_rest"]
        every = (*rest, v.k)
        yield "shape", S.shape_is(r, 1, *every)
        yield "not negative", every, lambda *i: S.le(0, S.at(r, 0, *i))
        e = self.e
        good = S.all(every, lambda *i: S.le(0, e(*i)))
        yield "the estimate if it is not negative", every, lambda *i: S.Implies(good, S.eq(S.at(r, 0, *i), e(*i)))
        cut = lambda *i: S.ite(S.lt(e(*i), 0), 0, e(*i))
        area = lambda i: S.sum((v.k,), lambda j: cut(*i, j) * v.width(j))
        yield "else cut at zero and normalised", every, lambda *i: S.Implies(S.Not(good), S.eq(S.at(r, 0, *i) * area(i[:-1]), cut(*i), scale=1))
        total = lambda i: S.sum((v.k,), lambda j: S.at(r, 0, *i, j) * v.width(j))
        yield "and integrates to one or is zero", rest, lambda *i: S.Implies(S.Not(good), S.Or(S.eq(total(i), 1, scale=1), S.eq(total(i), 0)))
