"""Contracts of the irf component estimators (pyirf/interpolation/component_estimators.py)"""
from engine.harness import Contract, contract
from contracts.interpolation import M, _Estimator, grid_of, rest_dims, target_gen

C = M + "component_estimators:"


class _Component(Contract):
    """Interpolator and extrapolator are stand-ins with arbitrary results, what they are given is
    recorded.  Which of the two is asked is P25"""
    prop = "P29"
    samples = (80, 500)
    kind = "Parametrized"
    dims = [1, 2]
    limit = 300

    def stand_in(self, what, result, nearest=False):
        base = self.get(M + ("nearest_neighbor_searcher:%sNearestNeighborSearcher" % self.kind if nearest else f"base_{what}s:{self.kind}{what.capitalize()}"))

        class StandIn(base):
            def __init__(self, *a, **k):
                super().__init__(*a, **{n: v for n, v in k.items() if n != "option"})
                self.kw = k

            def interpolate(s, target_point):
                self.asked.append((what, s))
                return result.copy()
            extrapolate = interpolate
        return StandIn

    def setup(self, b, rest, near=False, **gen):
        d = b.choice("grid_dim", self.dims)
        n = b.dim("n_points", d + 1, None if b.symbolic else d + 4)
        flat = d == 1 and b.choice("flat grid", [False, True])
        pts, p, at = grid_of(b, n, d, flat)
        flat_t = flat if d == 1 else b.choice("target", ["row", "flat"]) == "flat"
        t = b.array("target_point", (d,) if flat_t else (1, d), gen=target_gen(b, pts))
        est = [b.array(w, (1, *rest), **gen) for w in ("interpolated", "extrapolated")]
        nn = [near and b.choice("nearest " + w, [False, True]) for w in ("interpolator", "extrapolator")]
        kw = {"interpolator_cls": self.stand_in("interpolator", est[0], nn[0]), "extrapolator_cls": self.stand_in("extrapolator", est[1], nn[1])}
        return dict(grid=p, kw=kw, target=t, _d=d, _n=n, _at=at, _p=p, _t=t, _flat=flat_t, _est=est, _nn=nn, _rest=rest)

    def call(self, f, a):
        self.asked = []
        e = f(a["grid"], **a["kw"])
        r = e(a["target"])
        self.rec = (e.interpolator, e.extrapolator)
        return r

    def used(self, a):
        """(which stand-in was asked, its answer)"""
        (what, rec), = self.asked
        k = what == "extrapolator"
        assert rec is self.rec[k]
        return k, a["_est"][k], self.rec[k]

    def order(self, S, a):
        """position of the k-th grid point given to the stand-ins in the input"""
        return S.argsort(a["_n"], a["_at"]) if a["_d"] == 1 else (lambda i: i)


@contract
class EffectiveAreaEstimation(_Component):
    target = C + "EffectiveAreaEstimator"

    def inputs(self, b):
        S = b.S
        rest = rest_dims(b)
        a = self.setup(b, rest, gen=lambda r: r.choice([0.0, r.uniform(-8, 18), 13.815510557964274]))
        un = b.unit("m2", "area")
        area = b.quantity("effective_area", (a["_n"], *rest), un, nonneg=True, nan=True, gen=lambda r: r.choice([0.0, 0.5, 1.0, 10 ** r.uniform(-2, 8)]))
        low = None
        if b.choice("min_effective_area", [False, True]):
            low = b.quantity("min", (), b.unit("m2", "min"), pos=True, gen=lambda r: r.choice([1.0, 1e-3, 100.0]))
            a["kw"]["min_effective_area"] = low
        a["kw"]["effective_area"] = area
        return dict(a, _area=area, _low=low)

    def post(self, S, a, r):
        rest, n = a["_rest"], a["_n"]
        _, est, _ = self.used(a)
        low = 1 if a["_low"] is None else S.num(a["_low"], "m2")
        yield "shape", S.shape_is(r, 1, *rest)
        yield "unit", S.unit_is(r, "m2")
        v = S.to(r, "m2")
        yield "not negative", rest, lambda *i: S.le(0, S.at(v, 0, *i))

        def value(*i):
            e = S.exp(S.at(est, 0, *i))
            x = S.at(v, 0, *i)
            return S.And(S.Implies(S.lt(low * (1 + 1e-6), e), S.eq(x, e)),
                         S.Implies(S.le(e, low), S.eq(x, 0)),
                         S.Or(S.eq(x, e), S.eq(x, 0)))
        yield "exponential of the estimate, zero at the minimum", rest, value
        # the templates: logarithm of the area or of the minimum, whichever is larger
        area = S.to(a["_area"], "m2")
        o = self.order(S, a)
        for w, rec in zip(("interpolator", "extrapolator"), self.rec):
            yield w + " templates shape", S.shape_is(rec.params, n, *rest)

            def template(i, *j):
                x, p = S.at(area, o(i), *j), S.at(rec.params, i, *j)
                nan = S.isnan(x)
                return S.And(S.Implies(nan, S.isnan(p)),
                             S.Implies(S.And(S.Not(nan), S.lt(low, x)), S.eq(S.exp(p), x)),
                             S.Implies(S.And(S.Not(nan), S.le(x, low)), S.eq(S.exp(p), low)))
            yield w + " templates", (n, *rest), template


@contract
class RadMaxEstimation(_Component):
    target = C + "RadMaxEstimator"
    dims = [1, 2, 3]

    def _near():
        from engine.opaque import callee
        from engine.arrays import ax
        from engine.terms import P
        return {M + "utils:find_nearest_simplex": callee(M + "utils:find_nearest_simplex", lambda v, new: v["triangulation"].some_simplex(new))}
    replace = _near()

    def inputs(self, b):
        S = b.S
        rest = rest_dims(b, axes=(2,) if b.symbolic else (1, 2))
        gen = lambda r: r.choice([0.4, 0.1, 0.05, r.uniform(0.01, 0.4)])
        a = self.setup(b, rest, near=True, gen=lambda r: r.choice([0.4, 0.1, r.uniform(-0.1, 0.6)]))
        rad = b.array("rad_max", (a["_n"], *rest), pos=True, gen=gen)
        fill = b.choice("fill_value", ["default", None, "infer", "value"])
        if fill == "value":
            fill = b.scalar("fill_value", pos=True, gen=lambda r: r.choice([0.4, 0.1, 0.3]))
        a["kw"].update({} if fill == "default" else {"fill_value": fill}, rad_max=rad)
        return dict(a, _rad=rad, _fill=fill)

    raises = [(ValueError, lambda S, a: S.true(a["_d"] == 3 and not (a["_fill"] is None or isinstance(a["_fill"], str) and a["_fill"] == "default")))]

    def post(self, S, a, r):
        rest, n, d, rad, fill = a["_rest"], a["_n"], a["_d"], a["_rad"], a["_fill"]
        k, est, _ = self.used(a)
        o = self.order(S, a)
        for w, rec in zip(("interpolator", "extrapolator"), self.rec):
            t = rec.values if hasattr(rec, "values") else rec.params
            yield w + " templates shape", S.shape_is(t, n, *rest)
            yield w + " templates", (n, *rest), lambda i, *j: S.eq(S.at(t, i, *j), S.at(rad, o(i), *j))
        yield "shape", S.shape_is(r, 1, *rest)
        plain = lambda *i: S.ite(S.lt(S.at(est, 0, *i), 0), 0, S.at(est, 0, *i))
        if fill is None or isinstance(fill, str) and fill == "default" or a["_nn"][k]:
            yield "the estimate, not negative", rest, lambda *i: S.eq(S.at(r, 0, *i), plain(*i))
            return
        if a["_nn"][0]:
            # extrapolating next to a nearest neighbour interpolator: fill values may or may not be handled
            yield "not negative", rest, lambda *i: S.le(0, S.at(r, 0, *i))
            return
        f = S.max((n, *rest), lambda *i: S.at(rad, *i)) if isinstance(fill, str) else S.num(fill)
        cut = lambda x: S.ite(S.lt(f, x), f, x)
        x = lambda kk: S.at(a["_t"], kk) if a["_flat"] else S.at(a["_t"], 0, kk)
        full = lambda j, i: S.le(f, S.at(rad, j, *i))
        if d == 1:
            at = lambda i: a["_at"](o(i))

            def one(j, *i):
                v, p = S.at(r, 0, *i), cut(plain(*i))
                first, last = S.ieq(j, 0), S.ieq(j, n - 2)
                here = S.And(S.Or(first, S.le(at(j), x(0))), S.Or(last, S.lt(x(0), at(j + 1))))
                filled = S.Or(full(o(j), i), full(o(j + 1), i))
                # a target at a grid point belongs to both segments
                left = S.And(S.eq(x(0), at(j)), S.Not(first))
                return S.Implies(here, S.Or(S.eq(v, S.ite(filled, f, p)), S.And(left, S.eq(v, S.ite(S.Or(full(o(j - 1), i), full(o(j), i)), f, p)))))
            yield "fill value next to a fill value, else the estimate", (n - 1, *rest), one
        else:
            c = S.triangle(a["_p"], [x(0), x(1)], self.get(M + "utils:find_nearest_simplex"))

            def one(*i):
                v, p = S.at(r, 0, *i), cut(plain(*i))
                m = [full(j, i) for j in c]
                w = [S.at(rad, j, *i) for j in c]
                two = S.Or(*[S.And(m[q], m[s]) for q, s in ((0, 1), (1, 2), (0, 2))])
                some = S.Or(*m)
                least = S.And(*[S.le(v, y) for y in w], S.Or(*[S.eq(v, y) for y in w]))
                return S.And(S.Implies(two, S.eq(v, f)), S.Implies(S.And(some, S.Not(two)), least), S.Implies(S.Not(some), S.eq(v, p)))
            yield "fill value or smallest value next to fill values, else the estimate", rest, one


class _Pdf(_Component):
    kind = "DiscretePDF"
    limit = 200

    def pdf_inputs(self, b, unit, default):
        S = b.S
        k = b.dim("n_bins", 1, None if b.symbolic else 4)
        other = [b.dim(f"template_{i}", 1, None if b.symbolic else 3) for i in range(2)]
        nd = 3 if b.symbolic else b.choice("axes", [2, 3])
        other = other[:nd - 1]
        axis = b.choice("axis", ["default", -1, -2, 1, 2] + ([3, -3] if nd == 3 else []))
        at = default if axis == "default" else axis
        at = at if at >= 0 else at + nd + 1
        rest = list(other)
        rest.insert(at - 1, k)                      # the axes of the input, without the grid points
        swapped = list(rest)
        swapped[at - 1], swapped[-1] = swapped[-1], swapped[at - 1]
        a = self.setup(b, tuple(swapped), nonneg=True, nan=True)
        v = b.array("pdf", (a["_n"], *rest), nonneg=True, nan=True, gen=lambda r: r.choice([0.0, r.uniform(0, 5)]))
        v = b.const(v, unit) if unit else v
        kw = a["kw"]
        if axis != "default":
            kw["axis"] = axis
        norm = self.get(M + "base_interpolators:PDFNormalization")
        opts = [None, None]
        both = b.choice("kwargs", [("none", "none"), ("option", "normalization"), ("normalization", "none"), ("none", "option")])
        for i, w in enumerate(("interpolator", "extrapolator")):
            o = both[i]
            if o != "none":
                opts[i] = {"option": 3 + i} if o == "option" else {"normalization": norm.AREA}
                kw[w + "_kwargs"] = dict(opts[i])
        swap = lambda j: tuple(list(j[:at - 1]) + [j[-1]] + list(j[at:-1]) + [j[at - 1]]) if at != nd else tuple(j)
        return dict(a, _pdf=v, _k=k, _in=tuple(rest), _swapped=tuple(swapped), _swap=swap, _opts=opts, _axis=at)

    default_norm = "AREA"

    def common(self, S, a, r, to):
        norm = self.get(M + "base_interpolators:PDFNormalization")
        k, est, _ = self.used(a)
        o, n, swap = self.order(S, a), a["_n"], a["_swap"]
        pdf = S.to(a["_pdf"], to)
        same = lambda x, y: S.Or(S.And(S.isnan(x), S.isnan(y)), S.And(S.Not(S.isnan(x)), S.Not(S.isnan(y)), S.eq(x, y)))
        for w, rec, opt in zip(("interpolator", "extrapolator"), self.rec, a["_opts"]):
            t = rec.binned_pdf
            yield w + " templates have no unit", S.true(not S.has_unit(t))
            yield w + " templates shape", S.shape_is(t, n, *a["_swapped"])
            yield w + " templates", (n, *a["_swapped"]), lambda i, *j: same(S.at(t, i, *j), S.at(pdf, o(i), *swap(j)))
            yield w + " edges shape", S.shape_is(rec.bin_edges, a["_k"] + 1)
            e = S.to(a["_edges"], "rad" if to else None)
            yield w + " edges have no unit", S.true(not S.has_unit(rec.bin_edges))
            yield w + " edges", (a["_k"] + 1,), lambda i: S.eq(S.at(rec.bin_edges, i), S.at(e, i))
            opt = opt or {}
            yield w + " options", S.true(rec.kw.get("option") == opt.get("option"))
            yield w + " normalization", S.true(rec.normalization is opt.get("normalization", getattr(norm, self.default_norm)))
            yield w + " options are not changed", S.true(a["kw"].get(w + "_kwargs", {}) == opt)
        yield "shape", S.shape_is(r, 1, *a["_in"])
        v = S.to(r, to)
        yield "the estimate, in the order of the input", a["_in"], lambda *j: same(S.at(v, 0, *j), S.at(est, 0, *swap(j)))


@contract
class EnergyDispersionEstimation(_Pdf):
    target = C + "EnergyDispersionEstimator"

    def inputs(self, b):
        a = self.pdf_inputs(b, None, -2)
        e = b.edges("migra_bins", a["_k"] + 1, nonneg=True)
        a["kw"].update(migra_bins=e, energy_dispersion=a["_pdf"])
        return dict(a, _edges=e)

    def post(self, S, a, r):
        yield "no unit", S.true(not S.has_unit(r))
        yield from self.common(S, a, r, None)


@contract
class PsfTableEstimation(_Pdf):
    target = C + "PSFTableEstimator"
    default_norm = "CONE_SOLID_ANGLE"

    def inputs(self, b):
        a = self.pdf_inputs(b, b.unit("sr-1", "psf"), -1)
        e = b.edges("source_offset_bins", a["_k"] + 1, b.unit("deg", "offset"), nonneg=True)
        a["kw"].update(source_offset_bins=e, psf=a["_pdf"])
        return dict(a, _edges=e)

    def post(self, S, a, r):
        yield "unit", S.unit_is(r, "sr-1")
        yield from self.common(S, a, r, "sr-1")


@contract
class GridDataInterpolation(Contract):
    prop = "P29"
    target = M + "griddata_interpolator:GridDataInterpolator"

    def inputs(self, b):
        d = b.choice("grid_dim", [1, 2, 3])
        n = b.dim("n_points", d + 1, None if b.symbolic else d + 4)
        flat = d == 1 and b.choice("flat grid", [False, True])
        pts, p, at = grid_of(b, n, d, flat)
        rest = () if b.choice("scalar parameters", [False, True]) else rest_dims(b)
        v = b.array("params", (n, *rest))
        t = b.array("target_point", (1, d), gen=target_gen(b, pts))
        m = b.choice("method", ["default", "linear", "nearest"])
        return dict(grid=p, params=v, target=t, kw={} if m == "default" else {"method": m}, _m="linear" if m == "default" else m, _d=d, _n=n, _at=at, _rest=rest)

    def call(self, f, a):
        return f(a["grid"], a["params"], **a["kw"])(a["target"])

    def post(self, S, a, r):
        d, n, rest, v, t, at = a["_d"], a["_n"], a["_rest"], a["params"], a["target"], a["_at"]
        out = rest or (1,)
        col = lambda i: (lambda j: S.at(v, j, *i)) if rest else (lambda j: S.at(v, j))
        yield "shape", S.shape_is(r, 1, *out)
        ts = [S.at(t, 0, k) for k in range(d)]

        def value(*i):
            x, y = S.at(r, 0, *i), S.griddata(n, at, col(i), ts, a["_m"])
            return S.Or(S.And(S.isnan(x), S.isnan(y)), S.And(S.Not(S.isnan(x)), S.Not(S.isnan(y)), S.eq(x, y, scale=1)))
        yield "griddata of each parameter", out, value

        def node(j, *i):
            x = S.at(r, 0, *i)
            return S.Implies(S.And(*[S.eq(at(j, k), ts[k]) for k in range(d)]), S.Or(S.isnan(x), S.eq(x, col(i)(j), scale=1)))
        yield "template at its grid point", (n, *out), node
