"""Contracts of the interpolation of binned distributions (quantile and moment interpolation)"""
from engine import npshim
from engine.harness import Contract, contract
from contracts.interpolation import M, grid_of, rest_dims, target_gen

Q, MM = M + "quantile_interpolator:", M + "moment_morph_interpolator:"


class Bins:
    """edges of the distributions and the width each bin is normalised with"""

    def __init__(self, b, get, m=None, extended=False):
        S = b.S
        self.norm = b.choice("normalization", ["AREA", "CONE_SOLID_ANGLE"])
        self.value = getattr(get(M + "base_interpolators:PDFNormalization"), self.norm)
        self.k = m if m is not None else b.dim("n_bins", 1, None if b.symbolic else 6)
        cone = self.norm == "CONE_SOLID_ANGLE"
        self.edges = b.edges("bin_edges", self.k + 1, nonneg=cone and not (extended and b.symbolic))
        if cone and extended:
            # an additional bin to the left
            if not b.symbolic:
                self.edges[0] -= b.rng.choice([0.0, 2.0]) * self.edges[1]
            b.require(b.S.le(0, b.S.at(self.edges, 1)))
        if cone:
            b.require(b.S.le(b.S.at(self.edges, self.k), b.S.pi if b.symbolic else 3.1))
        self.S = S

    def width(self, j):
        S, e = self.S, self.edges
        if self.norm == "AREA":
            return S.at(e, j + 1) - S.at(e, j)
        return 2 * S.pi * (S.cos(S.at(e, j)) - S.cos(S.at(e, j + 1)))


@contract
class BinWidth(Contract):
    prop = "P27"
    target = M + "utils:get_bin_width"

    raises = [(ValueError, lambda S, a: S.true(a["_wrong"]))]

    def inputs(self, b):
        v = Bins(b, self.get)
        wrong = b.choice("invalid normalization", [False, True])
        return dict(bin_edges=v.edges, normalization=b.choice("which", [None, "AREA", 0.5]) if wrong else v.value, _v=v, _wrong=wrong)

    def post(self, S, a, r):
        v = a["_v"]
        yield "shape", S.shape_is(r, v.k)
        yield "no unit", S.true(not S.has_unit(r))
        yield "width", (v.k,), lambda j: S.eq(S.at(r, j), v.width(j), scale=10 if v.norm != "AREA" else 0)
        yield "positive", (v.k,), lambda j: S.lt(0, S.at(r, j))


@contract
class NormPdf(Contract):
    prop = "P27"
    target = Q + "norm_pdf"

    def inputs(self, b):
        v = Bins(b, self.get)
        rest = (b.dim("n_targets", 1, None if b.symbolic else 2), *rest_dims(b))
        p = b.array("pdf_values", (*rest, v.k), nonneg=True, gen=lambda r: r.choice([0.0, 0.0, 1.0, r.uniform(0, 1e3)]))
        return dict(pdf_values=p, bin_edges=v.edges, normalization=v.value, _v=v, _rest=rest)

    def post(self, S, a, r):
        v, rest, p = a["_v"], a["_rest"], a["pdf_values"]
        yield "shape", S.shape_is(r, *rest, v.k)
        yield "not negative", (*rest, v.k), lambda *i: S.le(0, S.at(r, *i))
        area = lambda i: S.sum((v.k,), lambda j: S.at(p, *i, j) * (S.at(v.edges, j + 1) - S.at(v.edges, j)))
        total = lambda i: S.sum((v.k,), lambda j: S.at(r, *i, j) * v.width(j))
        yield "integrates to one, or empty", rest, lambda *i: S.eq(total(i), S.ite(S.eq(area(i), 0), 0, 1), scale=1)

        def share(*i):
            j = i[-1]
            c = S.at(p, *i) * (S.at(v.edges, j + 1) - S.at(v.edges, j))
            return S.eq(S.at(r, *i) * v.width(j) * area(i[:-1]), c, scale=0)
        yield "every bin has its share", (*rest, v.k), share


# ------------------------------------------------------------------ the steps of the quantile interpolation
@contract
class CdfValues(Contract):
    """cumulative contents over the total, zero for empty distributions; the first bin may be an empty
    one to the left of the others, of whatever width"""
    prop = "P27"
    target = Q + "cdf_values"

    def inputs(self, b):
        S = b.S
        extended = b.choice("first bin", ["like the others", "empty"]) == "empty"
        v = Bins(b, self.get, extended=extended)
        rest = (b.dim("n_points", 1, None if b.symbolic else 3), *rest_dims(b, axes=(0, 1)))
        p = b.array("binned_pdf", (*rest, v.k), nonneg=True, gen=lambda r: r.choice([0.0, 0.0, 1.0, r.uniform(0, 1e3)]))
        if extended:
            if not b.symbolic:
                p[..., 0] = 0
            b.require_all(rest, lambda *i: S.eq(S.at(p, *i, 0), 0))
        return dict(binned_pdf=p, bin_edges=v.edges, normalization=v.value, _v=v, _rest=rest)

    def post(self, S, a, r):
        v, rest, p = a["_v"], a["_rest"], a["binned_pdf"]
        k = v.k
        upto = lambda i, j: S.sum((j + 1,), lambda t: S.at(p, *i, t) * v.width(t))
        total = lambda i: S.sum((k,), lambda t: S.at(p, *i, t) * v.width(t))
        yield "shape", S.shape_is(r, *rest, k)
        yield "finite", (*rest, k), lambda *i: S.finite(S.at(r, *i))
        yield "share of the contents up to the bin", (*rest, k), lambda *i: S.eq(S.at(r, *i) * total(i[:-1]), upto(i[:-1], i[-1]), scale=0 if S.symbolic else total(i[:-1]))
        yield "zero if empty", (*rest, k), lambda *i: S.Implies(S.eq(total(i[:-1]), 0), S.eq(S.at(r, *i), 0))
        yield "ends at one", rest, lambda *i: S.Implies(S.lt(0, total(i)), S.eq(S.at(r, *i, k - 1), 1))
        yield "between zero and one", (*rest, k), lambda *i: S.And(S.le(0, S.at(r, *i)), S.approx_le(S.at(r, *i), 1))
        yield "ascending", (*rest, k - 1), lambda *i: S.le(S.at(r, *i), S.at(r, *i[:-1], i[-1] + 1))


@contract
class PpfValues(Contract):
    """between neighbouring different cumulative contents the quantile is on the line through the first
    bins with these contents, the last one of the zeros; nan for empty distributions"""
    prop = "P27"
    target = Q + "ppf_values"
    samples = (150, 1500)

    def inputs(self, b):
        S = b.S
        k = b.dim("n_bins", 2, None if b.symbolic else 9)
        rest = (b.dim("n_points", 1, None if b.symbolic else 3), *rest_dims(b, axes=(0, 1)))
        m = b.dim("n_quantiles", 2, None if b.symbolic else 12)
        c = b.array("cdfs", (*rest, k), lo=0, hi=1, gen=lambda r: r.choice([0.0, 0.25, 0.5, 1.0, 1.0, r.uniform(0, 1)]))
        if not b.symbolic:
            c.sort(axis=-1)
            c[..., 0] = 0
            c[c[..., -1] < 1] = 0
        b.require_ascending("cdfs", c)
        b.require_all(rest, lambda *i: S.eq(S.at(c, *i, 0), 0))
        b.require_all(rest, lambda *i: S.Or(S.eq(S.at(c, *i, k - 1), 0), S.eq(S.at(c, *i, k - 1), 1)))
        x = b.edges("bin_mids", k)
        q = b.array("quantiles", (m,), lo=0, hi=1, near=c.ravel() if not b.symbolic else None)
        return dict(bin_mids=x, cdfs=c, quantiles=q, _k=k, _m=m, _rest=rest)

    def post(self, S, a, r):
        c, x, q, k, m, rest = (a[n] for n in ("cdfs", "bin_mids", "quantiles", "_k", "_m", "_rest"))
        yield "shape", S.shape_is(r, *rest, m)
        empty = lambda *i: S.eq(S.at(c, *i, k - 1), 0)
        yield "nan if empty", (*rest, m), lambda *i: S.Implies(empty(*i[:-1]), S.isnan(S.at(r, *i)))

        def line(*i):
            *n, lo, hi, j = i
            if not S.symbolic and lo >= hi:
                return True
            C, p = lambda t: S.at(c, *n, t), S.at(q, j)
            first = S.Or(S.And(S.eq(C(lo), 0), S.eq(lo + 1, hi)), S.And(S.lt(0, C(lo)), S.lt(C(lo - 1 if S.symbolic else max(lo - 1, 0)), C(lo))))
            there = S.And(S.lt(lo, hi), S.eq(C(lo), C(hi - 1)), S.lt(C(lo), C(hi)), first, S.le(C(lo), p), S.le(p, C(hi)))
            y = S.at(r, *i[:len(n)], j)
            return S.Implies(there, S.And(S.finite(y), S.eq((y - S.at(x, lo)) * (C(hi) - C(lo)), (p - C(lo)) * (S.at(x, hi) - S.at(x, lo)), scale=10)))
        yield "line between the first bins", (*rest, k, k, m), line


@contract
class PdfFromPpf(Contract):
    """slope of the quantiles, linear between the middles of the steps, at the lower edge of each bin;
    zero outside"""
    prop = "P27"
    target = Q + "pdf_from_ppf"
    samples = (150, 1500)

    def inputs(self, b):
        S = b.S
        v = Bins(b, self.get)
        m = b.dim("n_quantiles", 3, None if b.symbolic else 30)
        rest = rest_dims(b, axes=(0, 1))
        y = b.array("interp_ppfs", (1, *rest, m), gen=lambda r: r.uniform(-1, 4))
        if not b.symbolic:
            y.sort(axis=-1)
        b.require_all((1, *rest, m - 1), lambda *i: S.lt(S.at(y, *i), S.at(y, *i[:-1], i[-1] + 1)))
        q = b.edges("quantiles", m)
        return dict(bin_edges=v.edges, interp_ppfs=y, quantiles=q, _v=v, _m=m, _rest=rest)

    def post(self, S, a, r):
        v, m, rest, e, y, q = a["_v"], a["_m"], a["_rest"], a["bin_edges"], a["interp_ppfs"], a["quantiles"]
        every = (*rest, v.k)
        yield "shape", S.shape_is(r, 1, *every)
        yield "finite", every, lambda *i: S.finite(S.at(r, 0, *i))
        yield "not negative", every, lambda *i: S.le(0, S.at(r, 0, *i))
        at = lambda i, j: (S.at(y, 0, *i, j) + S.at(y, 0, *i, j + 1)) / 2
        slope = lambda i, j: (S.at(q, j + 1) - S.at(q, j)) / (S.at(y, 0, *i, j + 1) - S.at(y, 0, *i, j))

        yield "zero outside of the steps", every, lambda *i: S.Implies(S.Or(S.lt(S.at(e, i[-1]), at(i[:-1], 0)), S.lt(at(i[:-1], m - 2), S.at(e, i[-1]))), S.eq(S.at(r, 0, *i), 0))
        inside = lambda *i: S.And(S.le(at(i[:-1], 0), S.at(e, i[-1])), S.le(S.at(e, i[-1]), at(i[:-1], m - 2)))
        yield "slope inside", every, lambda *i: S.Implies(inside(*i), S.eq(S.at(r, 0, *i), S.interp(m - 1, lambda j: at(i[:-1], j), lambda j: slope(i[:-1], j), S.at(e, i[-1])), scale=0))


@contract
class PdfFromNan(Contract):
    """quantiles that are nan have no density anywhere, and do not change what the others give"""
    prop = "P27"
    target = Q + "pdf_from_ppf"
    samples = (150, 1500)

    def inputs(self, b):
        S = b.S
        v = Bins(b, self.get)
        m = b.dim("n_quantiles", 3, None if b.symbolic else 30)
        rest = (b.dim("n_rows", 1, None if b.symbolic else 4),)
        y = b.array("interp_ppfs", (1, *rest, m), gen=lambda r: r.uniform(-1, 4))
        if not b.symbolic:
            y.sort(axis=-1)
        b.require_all((1, *rest, m - 1), lambda *i: S.lt(S.at(y, *i), S.at(y, *i[:-1], i[-1] + 1)))
        q = b.edges("quantiles", m)
        empty = b.array("empty", (1, *rest), kind="b")
        np = npshim if b.symbolic else S.np
        return dict(bin_edges=v.edges, interp_ppfs=np.where(empty[..., None], np.nan, y), quantiles=q, _v=v, _m=m, _rest=rest, _y=y, _empty=empty)

    def call(self, f, a):
        self.full = f(bin_edges=a["bin_edges"], interp_ppfs=a["_y"], quantiles=a["quantiles"])
        return f(bin_edges=a["bin_edges"], interp_ppfs=a["interp_ppfs"], quantiles=a["quantiles"])

    def post(self, S, a, r):
        v, empty = a["_v"], a["_empty"]
        every = (*a["_rest"], v.k)
        yield "shape", S.shape_is(r, 1, *every)
        yield "zero for nan", every, lambda *i: S.Implies(S.at(empty, 0, *i[:-1]), S.eq(S.at(r, 0, *i), 0))
        yield "the others as they were", every, lambda *i: S.Or(S.at(empty, 0, *i[:-1]), S.eq(S.at(r, 0, *i), S.at(self.full, 0, *i), scale=0))


# ------------------------------------------------------------------ the steps of the moment morphing
@contract
class MeanAndWidth(Contract):
    """mean and standard deviation of the bin mids weighted with the contents, width of the uniform
    distribution over the bin if there is only one"""
    prop = "P27"
    target = MM + "_estimate_mean_std"
    samples = (100, 800)

    def inputs(self, b):
        v = Bins(b, self.get)
        rest = (b.dim("n_points", 1, None if b.symbolic else 3), *rest_dims(b, axes=(0, 1)))
        S = b.S
        p = b.array("binned_pdf", (*rest, v.k), nonneg=True, gen=lambda r: r.choice([0.0, 0.0, 1.0, r.uniform(0.01, 1e3)]))
        b.require_all(rest, lambda *i: S.lt(0, S.sum((v.k,), lambda j: S.at(p, *i, j) * v.width(j))))
        return dict(bin_edges=v.edges, binned_pdf=p, normalization=v.value, _v=v, _rest=rest)

    def post(self, S, a, r):
        v, rest, p = a["_v"], a["_rest"], a["binned_pdf"]
        mean, std = r
        e = v.edges
        mid = lambda j: (S.at(e, j) + S.at(e, j + 1)) / 2
        w = lambda i, j: S.at(p, *i, j) * v.width(j)
        total = lambda i: S.sum((v.k,), lambda j: w(i, j))
        first = lambda i: S.sum((v.k,), lambda j: w(i, j) * mid(j))
        big = 0 if S.symbolic else float(abs(S.np.asarray(e)).max())
        yield "shape", S.And(S.shape_is(mean, *rest), S.shape_is(std, *rest))
        yield "mean", rest, lambda *i: S.eq(S.at(mean, *i) * total(i), first(i), scale=0 if S.symbolic else big * total(i))
        m = S.memo(lambda *i: S.named(first(i) / total(i)))
        second = lambda i: S.sum((v.k,), lambda j: w(i, j) * (mid(j) - m(*i)) * (mid(j) - m(*i)))
        single = lambda i: S.ieq(v.k - S.count((v.k,), lambda j: S.eq(S.at(p, *i, j), 0)), 1)
        only = lambda i, j: S.And(single(i), S.lt(0, S.at(p, *i, j)))
        d = lambda j: S.at(e, j + 1) - S.at(e, j)
        yield "not negative", rest, lambda *i: S.le(0, S.at(std, *i))
        yield "width", rest, lambda *i: S.Or(single(i), S.eq(S.at(std, *i) * S.at(std, *i) * total(i), second(i), scale=0 if S.symbolic else big * big * total(i)))
        yield "width of a single bin", (*rest, v.k), lambda *i: S.Implies(only(i[:-1], i[-1]), S.near(S.at(std, *i[:-1]) * S.at(std, *i[:-1]) * 12, d(i[-1]) * d(i[-1]), 1e-9))


@contract
class Lookup(Contract):
    """the content of the bin a point is in, zero outside of the bins"""
    prop = "P27"
    target = MM + "_lookup"
    samples = (100, 800)

    def inputs(self, b):
        k = b.dim("n_bins", 1, None if b.symbolic else 6)
        e = b.edges("bin_edges", k + 1)
        dims = (b.dim("n_points", 1, None if b.symbolic else 3), *rest_dims(b, axes=(0, 1)), k)
        p = b.array("binned_pdf", dims, nonneg=True)
        x = b.array("x", dims, near=e)
        return dict(bin_edges=e, binned_pdf=p, x=x, _k=k, _dims=dims)

    def post(self, S, a, r):
        e, p, x, k, dims = a["bin_edges"], a["binned_pdf"], a["x"], a["_k"], a["_dims"]
        yield "shape", S.shape_is(r, *dims)
        out = lambda *i: S.Or(S.lt(S.at(x, *i), S.at(e, 0)), S.le(S.at(e, k), S.at(x, *i)))
        yield "zero outside", dims, lambda *i: S.Implies(out(*i), S.eq(S.at(r, *i), 0))
        yield "content of the bin", (*dims, k), lambda *i: S.Implies(S.And(S.le(S.at(e, i[-1]), S.at(x, *i[:-1])), S.lt(S.at(x, *i[:-1]), S.at(e, i[-1] + 1))),
                                                                     S.eq(S.at(r, *i[:-1]), S.at(p, *i[:-2], i[-1])))


# ------------------------------------------------------------------ whole interpolations
class Templates:
    """genuine distributions on a grid, for the bounded checks.  smooth: normal distributions that
    the bins resolve, mean and width linear in the grid coordinates; any: spikes, zeros, empty ones"""

    def __init__(self, b, get, dims, outside=False):
        S = b.S
        np = self.np = S.np
        r = b.rng
        self.kind = b.choice("templates", ["smooth", "any"])
        self.norm = b.choice("normalization", ["AREA", "CONE_SOLID_ANGLE"])
        self.value = getattr(get(M + "base_interpolators:PDFNormalization"), self.norm)
        self.d = d = b.choice("grid_dim", list(dims))
        self.n = n = d + 1 + r.choice([0, 0, 1, 2, 4])
        pts, p, _ = grid_of(b, n, d)
        if d == 1:
            p.sort(axis=0)
        self.grid = p
        gen = np.random.default_rng(r.randrange(2 ** 32))
        rest = [(), (), (1,), (2,), (3, 1), (1, 2), (2, 2)][r.randrange(7)]
        self.rest = rest
        cone = self.norm == "CONE_SOLID_ANGLE"
        k = self.k = r.randrange(20, 60) if self.kind == "smooth" else r.choice([1, 2, 3, 5, 12, 40])
        w = np.exp(gen.uniform(-1, 1, size=k) * (0.05 if self.kind == "smooth" else r.choice([0, 1])))
        e = np.concatenate([[0], np.cumsum(w)])
        scale = r.choice([1.0, 0.02]) if not cone else r.choice([0.2, 1.0]) / e[-1]
        self.edges = e * scale + (0 if cone else r.choice([0.0, -3.0, 0.5]))
        e = self.edges
        self.dx = np.diff(e)
        self.width = self.dx if not cone else 2 * np.pi * (np.cos(e[:-1]) - np.cos(e[1:]))
        q = r.choice(["corner", "corner", "inside", "inside"]) if not outside else r.choice(["outside", "outside", "far"])
        u = gen.random(n)
        self.corner = r.randrange(n) if q == "corner" else None
        self.target = {"corner": p[self.corner or 0], "inside": (u / u.sum()) @ p,
                       "outside": p.mean(axis=0) + gen.normal(size=d) * np.ptp(p, axis=0), "far": p.max(axis=0) + gen.uniform(0.1, 30, size=d)}[q].reshape(1, d)
        if not outside and d > 1:
            # inside as far as the triangulation is concerned (corners of the hull are not always, by rounding)
            from scipy.spatial import Delaunay
            b.require(bool(Delaunay(p).find_simplex(self.target)[0] >= 0))
        shape = (n, *rest, k)
        if self.kind == "smooth":
            L = e[-1] - e[0]
            self.mean, self.mean_t = self._linear(gen, e[0] + 0.4 * L, e[0] + 0.6 * L)
            self.std, self.std_t = self._linear(gen, max(0.06 * L, 2 * self.dx.mean()), max(0.1 * L, 3 * self.dx.mean()))
            prob = self.binned(self.mean, self.std)
        else:
            prob = gen.random(shape) * (gen.random(shape) < r.choice([0.2, 0.6, 1.0]))
            if r.random() < 0.5:
                prob *= gen.random(shape[:-1])[..., None] < 0.7
        tot = prob.sum(axis=-1, keepdims=True)
        self.empty = tot[..., 0] == 0
        self.pdf = np.divide(prob, tot, out=np.zeros(shape), where=tot > 0) / self.width
        for name in ("grid", "edges", "pdf", "target"):
            b.log[name] = getattr(self, name).tolist()
        b.log["kind"], b.log["norm"] = self.kind, self.norm

    def binned(self, mean, std):
        """contents of normal distributions"""
        from math import erf
        np = self.np
        z = (self.edges - np.asarray(mean)[..., None]) / np.asarray(std)[..., None] / np.sqrt(2)
        c = np.vectorize(erf)(z)
        return np.diff(c, axis=-1)

    def _linear(self, gen, lo, hi):
        """for each remaining index, a linear function between lo and hi: at the grid points, at the target"""
        np = self.np
        x = np.vstack([self.grid, self.target])
        x = (x - x.min(axis=0)) / np.ptp(x, axis=0)
        c = gen.uniform(-1, 1, size=(self.d, *self.rest)) / self.d
        v = np.tensordot(x - 0.5, c, axes=1)
        v = lo + (hi - lo) * (v + 0.5)
        return v[:-1], v[-1]

    def total(self, r):
        return (r * self.width).sum(axis=-1)

    def args(self, col=None):
        p = self.pdf if col is None else self.pdf[(slice(None), *col)]
        return dict(grid_points=self.grid, bin_edges=self.edges, binned_pdf=p, normalization=self.value)

    def columns(self):
        return list(self.np.ndindex(*self.rest))


class _Distribution(Contract):
    prop = "P27"
    samples = (60, 400)
    bounded = "1 to 60 bins, up to 8 grid points in one or two dimensions, up to 4 columns; normal distributions resolved by the bins, random contents, spikes and empty templates"
    dims = (1, 2)
    outside = False
    exact = False
    TOL = dict(l1=0.25, mean=0.6, std=0.5, node=0.08)

    def inputs(self, b):
        t = Templates(b, self.get, self.dims, self.outside)
        self.prepare(b, t)
        return dict(t.args(), target_point=t.target, _t=t)

    def prepare(self, b, t):
        pass

    def kw(self, a):
        return {k: a[k] for k in ("grid_points", "bin_edges", "binned_pdf", "normalization")}

    def call(self, f, a):
        self.f = f
        e = f(**self.kw(a))
        first = e(a["target_point"])
        copy = first.copy()
        again = e(a["target_point"])
        self.again = again
        return copy

    def resolved(self, t, col):
        """contents are known to be within reach of the binning"""
        return t.kind == "smooth"

    def post(self, S, a, r):
        np, t = S.np, a["_t"]
        yield "shape", r.shape == (1, *t.rest, t.k)
        yield "finite", bool(np.isfinite(r).all())
        yield "not negative", bool((r >= 0).all())
        tot = t.total(r[0])
        some = t.empty.any(axis=0)
        yield "integrates to one or is zero", bool((np.isclose(tot, 1, rtol=1e-9) | (tot == 0)).all())
        yield "zero if the templates are empty", bool((tot[t.empty.all(axis=0)] == 0).all())
        yield "same answer twice", np.array_equal(r, self.again)
        mid = (t.edges[1:] + t.edges[:-1]) / 2
        w = t.dx.mean()
        for col in t.columns():
            x = r[(0, *col)]
            prob = x * t.width
            if not some[col] and self.resolved(t, col):
                yield f"not empty {col}", bool(np.isclose(tot[col], 1))
            if t.kind == "smooth" and not self.outside:
                q = t.binned(t.mean_t[col], t.std_t[col])
                yield f"linear mean and width: contents {col}", bool(np.abs(prob - q / q.sum()).sum() < self.TOL["l1"])
                m = (prob * mid).sum()
                yield f"linear mean {col}", bool(abs(m - t.mean_t[col]) < self.TOL["mean"] * w)
                s = np.sqrt((prob * (mid - m) ** 2).sum())
                yield f"linear width {col}", bool(abs(s - t.std_t[col]) < self.TOL["std"] * w)
            if t.corner is not None and (t.kind == "smooth" or self.exact) and not some[col]:
                diff = np.abs((x - t.pdf[(t.corner, *col)]) * t.width).sum()
                yield f"template at its grid point {col}", bool(diff < (1e-6 if self.exact else self.TOL["node"]))
            if t.rest:
                one = self.f(**dict(self.kw(a), **{"binned_pdf": t.args(col)["binned_pdf"]}))(a["target_point"])
                yield f"independent of the other columns {col}", one.shape == (1, t.k) and bool(np.allclose(one[0], x, rtol=1e-9, atol=1e-12 * max(1, x.max())))
        yield from self.more(S, a, r)

    def more(self, S, a, r):
        return ()


@contract
class QuantileInterpolation(_Distribution):
    target = Q + "QuantileInterpolator"
    dims = (1, 1, 2, 3)

    def prepare(self, b, t):
        self.res = b.choice("quantile_resolution", [None, None, 2e-3])

    def kw(self, a):
        return dict(super().kw(a), **({} if self.res is None else {"quantile_resolution": self.res}))

    def more(self, S, a, r):
        np, t = S.np, a["_t"]
        # contents in any unit: only their proportions count
        k = self.kw(a)
        two = self.f(**dict(k, binned_pdf=k["binned_pdf"] * 4))(a["target_point"])
        yield "scale of the templates", bool(np.allclose(two, r, rtol=1e-9, atol=1e-12))
        # an order of the grid points
        o = np.arange(t.n)[::-1]
        if t.d == 1:
            k = dict(k, grid_points=t.grid[o], binned_pdf=t.pdf[o])
            yield "order of the grid points", bool(np.allclose(self.f(**k)(a["target_point"]), r, rtol=1e-7, atol=1e-9))


@contract
class QuantileSteps(Contract):
    """whatever the interpolated quantiles are, the result is a distribution over the bins of the
    templates, normalised as requested, or empty; the cumulative contents are those of the templates
    with an empty bin in front"""
    prop = "P27"
    target = Q + "QuantileInterpolator"
    samples = (60, 300)

    def _callees():
        from engine.opaque import callee
        from engine.arrays import ax, asarr
        size = lambda x: asarr(x).axes[0]

        def ppf(v, new):
            return new("quantiles", (*asarr(v["cdfs"]).axes[:-1], size(v["quantiles"])), nan=True)

        def pdf(v, new):
            bins = ax(size(v["bin_edges"]).size - 1)
            return new("density", (*asarr(v["interp_ppfs"]).axes[:-1], bins), nonneg=True)

        def between(v, new):
            return new("values", (*asarr(v["xi"]).axes[:-1], *asarr(v["values"]).axes[1:]), nan=True)
        def cdf(v, new):
            QuantileSteps.seen.append(v)
            return new("cumulative", asarr(v["binned_pdf"]).axes, nonneg=True)
        return {Q + "cdf_values": callee(Q + "cdf_values", cdf), Q + "ppf_values": callee(Q + "ppf_values", ppf), Q + "pdf_from_ppf": callee(Q + "pdf_from_ppf", pdf), Q + "griddata": callee(Q + "griddata", between)}
    replace = _callees()
    seen = []
    raises = [(ValueError, lambda S, a: S.Not(S.ieq(a["_k"], a["_l"])))]

    def inputs(self, b):
        S = self.S = b.S
        v = Bins(b, self.get)
        d = 2 if b.symbolic else b.choice("grid_dim", [1, 2])       # of no consequence here
        n = b.dim("n_points", d + 1, None if b.symbolic else d + 3)
        pts, p, at = grid_of(b, n, d)
        rest = rest_dims(b, axes=(0, 1))
        k = b.dim("bins of the templates", 1, None if b.symbolic else 6) if b.choice("bins", ["match", "any"]) == "any" else v.k
        q = b.array("binned_pdf", (n, *rest, k), nonneg=True, gen=lambda r: r.choice([0.0, 0.0, r.uniform(0.01, 5), 1.0]))
        t = b.array("target_point", (1, d), gen=target_gen(b, pts))
        return dict(grid_points=p, bin_edges=v.edges, binned_pdf=q, normalization=v.value, target_point=t, _v=v, _rest=rest, _n=n, _k=k, _l=v.k)

    def call(self, f, a):
        del self.seen[:]
        e = f(**{k: a[k] for k in ("grid_points", "bin_edges", "binned_pdf", "normalization")})
        return e(a["target_point"])

    def post(self, S, a, r):
        v, rest, n = a["_v"], a["_rest"], a["_n"]
        every = (*rest, v.k)
        yield "shape", S.shape_is(r, 1, *every)
        yield "not negative", every, lambda *i: S.le(0, S.at(r, 0, *i))
        total = lambda i: S.sum((v.k,), lambda j: S.at(r, 0, *i, j) * v.width(j))
        yield "integrates to one or is empty", rest, lambda *i: S.Or(S.eq(total(i), 1, scale=1), S.eq(total(i), 0))
        # precondition of the cumulative contents
        for w in self.seen:
            p, e = w["binned_pdf"], w["bin_edges"]
            yield "one more bin", S.And(S.shape_is(p, n, *rest, v.k + 1), S.shape_is(e, v.k + 2))
            yield "empty bin in front", (n, *rest), lambda *i: S.eq(S.at(p, *i, 0), 0)
            yield "edge in front", S.lt(S.at(e, 0), S.at(e, 1))
            yield "contents", (n, *rest, v.k), lambda *i: S.eq(S.at(p, *i[:-1], i[-1] + 1), S.at(a["binned_pdf"], *i))
            yield "edges", (v.k + 1,), lambda j: S.eq(S.at(e, j + 1), S.at(v.edges, j))


@contract
class MorphEstimation(Contract):
    """morphing with weights that are not negative: never negative, normalised, empty where one of
    the templates is; mean and width of the templates and their look-up by their own contracts"""
    prop = "P27"
    target = MM + "moment_morph_estimation"
    modifies = ("binned_pdf",)
    samples = (100, 800)

    def _callees():
        from engine.opaque import callee
        from engine.arrays import asarr
        axes = lambda v: asarr(v["binned_pdf"]).axes

        def mean_width(v, new):
            r = new("mean", axes(v)[:-1]), new("width", axes(v)[:-1], pos=True)
            MorphEstimation.seen.append(("mean and width", v, r))
            return r

        def lookup(v, new):
            r = new("content", axes(v), nonneg=True)
            MorphEstimation.seen.append(("look-up", v, r))
            return r

        return {MM + "_estimate_mean_std": callee(MM + "_estimate_mean_std", mean_width), MM + "_lookup": callee(MM + "_lookup", lookup)}
    replace = _callees()
    seen = []

    def inputs(self, b):
        S = b.S
        v = Bins(b, self.get)
        n = b.dim("n_points", 1, None if b.symbolic else 3)
        rest = rest_dims(b, axes=(0, 1))
        p = b.array("binned_pdf", (n, *rest, v.k), nonneg=True, gen=lambda r: r.choice([0.0, 0.0, 1.0, r.uniform(0.01, 1e3)]))
        content = lambda *i: S.sum((v.k,), lambda j: S.at(p, *i, j))
        b.require_all((n, *rest), lambda *i: S.Or(S.eq(content(*i), 0), S.lt(1e-7, content(*i))))
        c = b.array("coefficients", (n,), nonneg=True, gen=lambda r: r.choice([0.0, 1.0, r.uniform(0.01, 1)]))
        b.require(S.lt(0, S.sum((n,), lambda i: S.at(c, i))))
        del MorphEstimation.seen[:]
        return dict(bin_edges=v.edges, binned_pdf=p, coefficients=c, normalization=v.value, _v=v, _n=n, _rest=rest)

    def call(self, f, a):
        self.p = a["binned_pdf"].copy()
        return f(**{k: a[k] for k in a if k[0] != "_"})

    def post(self, S, a, r):
        v, rest, n, p = a["_v"], a["_rest"], a["_n"], self.p
        every = (*rest, v.k)
        yield "shape", S.shape_is(r, 1, *every)
        yield "not negative", every, lambda *i: S.le(0, S.at(r, 0, *i))
        total = lambda i: S.sum((v.k,), lambda j: S.at(r, 0, *i, j) * v.width(j))
        yield "integrates to one or is empty", rest, lambda *i: S.Or(S.eq(total(i), 1, scale=1), S.eq(total(i), 0))
        empty = lambda i: S.any((n,), lambda t: S.all((v.k,), lambda j: S.eq(S.at(p, t, *i, j), 0)))
        yield "empty if one of the templates is", every, lambda *i: S.Implies(empty(i[:-1]), S.eq(S.at(r, 0, *i), 0))
        if not S.symbolic:
            np, g, e = S.np, self.get, a["bin_edges"]
            c = a["coefficients"]
            for i in np.ndindex(*rest):
                q = p[(slice(None), *i)]
                if (q.sum(axis=1) == 0).any():
                    continue
                mean, width = g(MM + "_estimate_mean_std")(e, q, a["normalization"])
                slope = (width / (c @ width))[:, None]
                x = mean[:, None] + ((e[1:] + e[:-1]) / 2 - c @ mean) * slope
                want = (c[:, None] * g(MM + "_lookup")(e, q, x) * slope).sum(axis=0)
                tot = sum(want[j] * v.width(j) for j in range(v.k))
                # a look-up within rounding of a border may fall on either side of it
                if tot > 0 and np.abs(x[..., None] - e).min() > 1e-9 * (abs(e).max() + abs(x).max()):
                    yield f"linear mean and width, weighted contents {i}", bool(np.allclose(r[(0, *i)], want / tot, rtol=1e-6, atol=1e-9 * (want / tot).max()))
        if S.symbolic:
            for what, w, _ in self.seen:
                q = w["binned_pdf"]
                yield f"precondition of {what}", (n, *rest), lambda *i: S.lt(0, S.sum((v.k,), lambda j: S.at(q, *i, j) * v.width(j)))
            of = lambda k: [x for x in self.seen if x[0] == k]
            if len(of("mean and width")) == 1 and len(of("look-up")) == 1:
                # mean and width are those of the templates, weighted; all templates are looked up the
                # same number of widths from their mean
                (_, _, (mean, width)), (_, w, content) = of("mean and width")[0], of("look-up")[0]
                c, x = (lambda t: S.at(a["coefficients"], t)), w["x"]
                mid = lambda j: (S.at(a["bin_edges"], j) + S.at(a["bin_edges"], j + 1)) / 2
                avg = lambda q, i: S.sum((n,), lambda t: c(t) * S.at(q, t, *i))
                yield "linear mean and width", (n, *rest, v.k), lambda t, *i: S.eq(
                    S.at(x, t, *i), S.at(mean, t, *i[:-1]) + (mid(i[-1]) - avg(mean, i[:-1])) * S.at(width, t, *i[:-1]) / avg(width, i[:-1]))
                part = lambda i, j: S.sum((n,), lambda t: c(t) * S.at(content, t, *i, j) * S.at(width, t, *i) / avg(width, i))
                every_part = lambda i: S.sum((v.k,), lambda j: part(i, j) * v.width(j))
                yield "weighted contents", every, lambda *i: S.Or(empty(i[:-1]), S.eq(every_part(i[:-1]), 0), S.eq(S.at(r, 0, *i), part(i[:-1], i[-1]) / every_part(i[:-1])))


def morphed():
    """moment_morph_estimation by a stand-in that its arguments determine"""
    from engine.opaque import callee
    from engine.arrays import ax, asarr
    from engine.terms import P
    name = MM + "moment_morph_estimation"

    def estimate(v, new):
        MorphedTemplates.seen.append(v)
        return new("estimate", (ax(P(1)), *asarr(v["binned_pdf"]).axes[1:]))
    return {name: callee(name, estimate)}


@contract
class MorphedTemplates(Contract):
    """inside of the grid: the templates at the ends of the segment, or at the corners of the triangle, the
    target is in, morphed with its coefficients"""
    prop = "P27"
    target = MM + "MomentMorphInterpolator"
    samples = (80, 400)
    replace = morphed()
    seen = []

    def inputs(self, b):
        S = self.S = b.S
        v = Bins(b, self.get)
        d = b.choice("grid_dim", [1, 2])
        n = b.dim("n_points", d + 1, None if b.symbolic else d + 4)
        pts, p, at = grid_of(b, n, d)
        j = None
        if d == 1:
            # a segment, whichever
            p = b.edges("grid_points", n)
            pts, p = None if b.symbolic else p.reshape(n, 1), p.reshape(n, 1)
            j = b.dim("segment", 0, None if b.symbolic else int(n) - 2)
            b.require(S.lt(j, n - 1))
        rest = rest_dims(b, axes=(0, 1))
        q = b.array("binned_pdf", (n, *rest, v.k), nonneg=True, gen=lambda r: r.choice([0.0, r.uniform(0.01, 5), 1.0]))
        if d == 1 and not b.symbolic:
            x = [p[j, 0], p[j + 1, 0]]
            t = b.array("target_point", (1, 1), gen=lambda r: x[0] + (x[1] - x[0]) * (r.choice([0.0, 0.25, 1.0, r.random()])))
        else:
            t = b.array("target_point", (1, d), gen=target_gen(b, pts))
        if d == 1:
            b.require(S.le(S.at(p, 0, 0), S.at(t, 0, 0)))
            b.require(S.le(S.at(t, 0, 0), S.at(p, n - 1, 0)))
        else:
            b.require(S.in_hull(p, t))
        return dict(grid_points=p, bin_edges=v.edges, binned_pdf=q, normalization=v.value, target_point=t, _v=v, _rest=rest, _d=d, _n=n, _j=j)

    def call(self, f, a):
        del self.seen[:]
        r = f(**{k: a[k] for k in ("grid_points", "bin_edges", "binned_pdf", "normalization")})(a["target_point"])
        self.used = [x["coefficients"] for x in self.seen]
        g, t, get, S = a["grid_points"], a["target_point"], self.get, self.S
        if a["_d"] == 1:
            i, weights = [a["_j"], a["_j"] + 1], get(MM + "linesegment_1D_interpolation_coefficients")
        else:
            self.t = [S.at(t, 0, k) for k in range(2)]
            i, weights = S.triangle(g, self.t), get(MM + "barycentric_2D_interpolation_coefficients")
        i = get(MM + "np").array(i)
        self.e = get(MM + "moment_morph_estimation")(bin_edges=a["bin_edges"], binned_pdf=a["binned_pdf"][i], coefficients=weights(g[i], t), normalization=a["normalization"])
        return r

    def post(self, S, a, r):
        v, rest, e = a["_v"], a["_rest"], self.e
        every = (*rest, v.k)
        yield "shape", S.shape_is(r, 1, *every)
        here = True
        if a["_d"] == 1:
            x, j, n = S.at(a["target_point"], 0, 0), a["_j"], a["_n"]
            g = lambda i: S.at(a["grid_points"], i, 0)
            here = S.And(S.Or(S.lt(g(j), x), S.And(S.ieq(j, 0), S.eq(g(j), x))), S.Or(S.lt(x, g(j + 1)), S.And(S.ieq(j, n - 2), S.eq(x, g(j + 1)))))
        yield "morphed templates around the target", every, lambda *i: S.Implies(here, S.eq(S.at(r, 0, *i), S.at(e, 0, *i)))
        # precondition of the morphing
        k = a["_d"] + 1
        for c in self.used:
            c = c.reshape(k)
            if k == 2:
                yield "no negative coefficient", (k,), lambda i: S.le(0, S.at(c, i))
                yield "some coefficient", S.lt(0, S.at(c, 0) + S.at(c, 1))
            else:
                # shares of the triangle that contains the target
                x = [[S.at(a["grid_points"], i, q) for q in range(2)] for i in S.triangle(a["grid_points"], self.t)]
                side = lambda p, q, r: (q[0] - p[0]) * (r[1] - p[1]) - (q[1] - p[1]) * (r[0] - p[0])
                for i in range(3):
                    yield f"coefficient of corner {i}", S.eq(S.at(c, i) * side(*x), side(x[(i + 1) % 3], x[(i + 2) % 3], self.t))


@contract
class MomentMorphInterpolation(_Distribution):
    target = MM + "MomentMorphInterpolator"
    exact = True

    def resolved(self, t, col):
        return t.kind == "smooth" or t.corner is not None

    def more(self, S, a, r):
        np, t = S.np, a["_t"]
        if t.d == 1 and t.corner is None:
            j = int(np.searchsorted(t.grid[:, 0], t.target[0, 0], side="right"))
            if 0 < j < t.n:
                e = t.empty[j - 1:j + 1].any(axis=0)
                yield "zero next to an empty template", bool((r[0][e] == 0).all())


@contract
class MomentMorphDimensions(Contract):
    """more than two grid dimensions are rejected"""
    prop = "P27"
    target = MM + "MomentMorphInterpolator"
    samples = (12, 40)
    raises = [(NotImplementedError, lambda S, a: S.true(a["_d"] > 2))]

    def inputs(self, b):
        d = b.choice("grid_dim", [1, 2, 3, 4])
        n = b.dim("n_points", d + 1, None if b.symbolic else d + 3)
        _, p, _ = grid_of(b, n, d)
        rest = rest_dims(b)
        return dict(grid_points=p, bin_edges=b.edges("bin_edges", rest[-1] + 1), binned_pdf=b.array("pdf", (n, *rest), nonneg=True), _d=d)

    def post(self, S, a, r):
        yield "made", S.true(r is not None)
