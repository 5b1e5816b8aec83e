"""Contracts of pyirf/benchmarks: angular resolution, energy bias and resolution"""
from engine.harness import Contract, contract
import numpy as np
from .common import binned

AR = "pyirf.benchmarks.angular_resolution"
EB = "pyirf.benchmarks.energy_bias_resolution"


def in_bin(S, e, k, x):
    return S.And(S.le(S.at(e, k), x), S.lt(x, S.at(e, k + 1)))


def sigma(S, k):
    return S.ncdf(k)


def one_sigma(S):
    return S.ncdf(1) - S.ncdf(-1)


class _Resolution(Contract):
    prop = "P22"
    samples = (60, 500)

    def events(self, b):
        n = b.dim("n", 0)
        m = b.dim("m", 2, None if b.symbolic else 6)
        ub = b.unit("TeV", "energy_bins")
        e = b.edges("energy_bins", m, ub, pos=True)
        kind = b.choice("energy_type", ["true", "reco"])
        other = "reco" if kind == "true" else "true"
        x = binned(b, kind + "_energy", (n,), b.unit("TeV", kind + "_energy"), e, pos=True)
        y = b.quantity(other + "_energy", (n,), b.unit("TeV", other + "_energy"), pos=True)
        return n, m, e, kind, x, {kind + "_energy": x, other + "_energy": y}

    def bins(self, S, a, r):
        k, m = a["_kind"], a["_m"]
        E = lambda i: S.at(S.to(a["energy_bins"], "TeV"), i)
        lo, hi, c = (S.to(S.col(r, f"{k}_energy_{s}"), "TeV") for s in ("low", "high", "center"))
        yield "rows", S.And(*[S.shape_is(x, m - 1) for x in (lo, hi, c, S.col(r, "n_events"))])
        yield "low", m - 1, lambda i: S.eq(S.at(lo, i), E(i))
        yield "high", m - 1, lambda i: S.eq(S.at(hi, i), E(i + 1))
        yield "center", m - 1, lambda i: S.eq(2 * S.at(c, i), E(i) + E(i + 1))
        e, x = S.to(a["energy_bins"], "TeV"), S.to(a["_x"], "TeV")
        inb = lambda i, k: in_bin(S, e, k, S.at(x, i))
        yield "n_events", m - 1, lambda k: S.ieq(S.at(S.col(r, "n_events"), k), S.count(a["_n"], lambda i: inb(i, k)))

    def inside(self, S, a):
        e, x = S.to(a["energy_bins"], "TeV"), S.to(a["_x"], "TeV")
        return lambda i, k: in_bin(S, e, k, S.at(x, i))

    def same(self, S, x, want, empty, tol=0):
        """the value, or nan for an empty bin"""
        return S.And(S.Iff(S.isnan(x), S.Or(empty, S.isnan(want))), S.Or(S.isnan(x), S.isnan(want), S.eq(x, want, scale=tol) if tol else S.eq(x, want)))


# ---------------------------------------------------------------- angular resolution
@contract
class AngularResolution(_Resolution):
    """the containment quantile of theta of the events of each energy bin"""
    target = AR + ":angular_resolution"
    quantiles = "default"

    def inputs(self, b):
        n, m, e, kind, x, cols = self.events(b)
        th = b.quantity("theta", (n,), b.unit("deg", "theta"), nonneg=True)
        cols["theta"] = th
        kw = {}
        if kind == "reco" or b.choice("explicit", [False, True]):
            kw["energy_type"] = kind
        q = self.quantiles
        names = {"angular_resolution_68": lambda S: one_sigma(S)}
        if q == "one":
            v = b.choice("q", [0.25, 0.95, 0.5])
            kw["quantile"] = v
            names = {f"angular_resolution_{v * 100:.0f}": lambda S, v=v: v}
        elif q == "several":
            vs = b.choice("q", [[0.25, 0.5, 0.68], [0.95], (0.9, 0.1)])
            kw["quantile"] = vs
            names = {f"angular_resolution_{v * 100:.0f}": lambda S, v=v: v for v in vs}
        return dict(events=b.table(cols), energy_bins=e, **kw, _n=n, _m=m, _x=x, _th=th, _kind=kind, _names=names)

    def post(self, S, a, r):
        k = a["_kind"]
        yield "columns", S.cols_are(r, [f"{k}_energy_low", f"{k}_energy_high", f"{k}_energy_center", "n_events", *a["_names"]])
        yield from self.bins(S, a, r)
        inb = self.inside(S, a)
        ut = S.unit(a["_th"])
        th = S.to(a["_th"], ut)
        for name, q in a["_names"].items():
            c = S.col(r, name)
            yield "unit of " + name, S.unit_like(c, "deg")
            v = S.to(c, ut)
            yield "shape of " + name, S.shape_is(v, a["_m"] - 1)
            yield name, a["_m"] - 1, lambda k, v=v, q=q: self.same(
                S, S.at(v, k), S.quantile(a["_n"], lambda i: S.at(th, i), q(S), where=lambda i: inb(i, k)), S.Not(S.any(a["_n"], lambda i: inb(i, k))))


@contract
class AngularResolutionOne(AngularResolution):
    quantiles = "one"


@contract
class AngularResolutionSeveral(AngularResolution):
    quantiles = "several"


# ---------------------------------------------------------------- from events
@contract
class EnergyBiasResolution(_Resolution):
    """median and half the central 68 % range of reco / true - 1 of the events of each bin"""
    target = EB + ":energy_bias_resolution"
    covers = (EB + ":inter_quantile_distance", EB + ":energy_resolution_absolute_68")

    def inputs(self, b):
        n, m, e, kind, x, cols = self.events(b)
        kw = {}
        if kind == "reco" or b.choice("explicit", [False, True]):
            kw["energy_type"] = kind
        res = b.choice("resolution", ["default", "absolute"])
        if res == "absolute":
            kw["resolution_function"] = self.get(EB + ":energy_resolution_absolute_68")
        return dict(events=b.table(cols), energy_bins=e, **kw, _n=n, _m=m, _x=x, _kind=kind, _cols=cols, _res=res)

    def post(self, S, a, r):
        k = a["_kind"]
        yield "columns", S.cols_are(r, [f"{k}_energy_low", f"{k}_energy_high", f"{k}_energy_center", "n_events", "bias", "resolution"])
        yield from self.bins(S, a, r)
        inb, n = self.inside(S, a), a["_n"]
        true, reco = S.to(a["_cols"]["true_energy"], "TeV"), S.to(a["_cols"]["reco_energy"], "TeV")
        rel = lambda i: S.at(reco, i) / S.at(true, i) - 1
        empty = lambda k: S.Not(S.any(n, lambda i: inb(i, k)))
        quant = lambda k, q, f=rel: S.quantile(n, f, q, where=lambda i: inb(i, k))
        for c in ("bias", "resolution"):
            yield "shape of " + c, S.shape_is(S.col(r, c), a["_m"] - 1)
        tol = 1 if not S.symbolic else 0
        yield "bias", a["_m"] - 1, lambda k: self.same(S, S.at(S.col(r, "bias"), k), quant(k, 0.5), empty(k), tol)
        if a["_res"] == "default":
            want = lambda k: (quant(k, S.ncdf(1)) - quant(k, S.ncdf(-1))) / 2
        else:
            want = lambda k: quant(k, one_sigma(S), lambda i: S.abs(rel(i)))
        yield "resolution", a["_m"] - 1, lambda k: self.same(S, S.at(S.col(r, "resolution"), k), want(k), empty(k), tol)


@contract
class InterQuantileDistance(Contract):
    prop = "P22"
    target = EB + ":inter_quantile_distance"
    lo, hi = -1, 1

    def inputs(self, b):
        n = b.dim("n", 1)  # groups are never empty
        return dict(rel_error=b.array("rel_error", (n,), lo=-1, nan=True), _n=n)

    def want(self, S, a):
        x = lambda i: S.at(a["rel_error"], i)
        ok = lambda i: S.Not(S.isnan(x(i)))
        return (S.quantile(a["_n"], x, S.ncdf(1), where=ok) - S.quantile(a["_n"], x, S.ncdf(-1), where=ok)) / 2

    def post(self, S, a, r):
        empty = S.Not(S.any(a["_n"], lambda i: S.Not(S.isnan(S.at(a["rel_error"], i)))))
        yield "scalar", S.is_scalar(r)
        yield "nan only without numbers", S.Iff(S.isnan(S.num(r)), empty)
        yield "value", S.Or(empty, S.eq(S.num(r), self.want(S, a), scale=1) if not S.symbolic else S.eq(S.num(r), self.want(S, a)))


@contract
class EnergyResolution68(InterQuantileDistance):
    target = EB + ":energy_resolution_absolute_68"

    def want(self, S, a):
        x = lambda i: S.abs(S.at(a["rel_error"], i))
        return S.quantile(a["_n"], x, one_sigma(S), where=lambda i: S.Not(S.isnan(S.at(a["rel_error"], i))))


# ---------------------------------------------------------------- from the dispersion matrix
@contract
class FromDispersion(Contract):
    """bias and resolution are the quantiles of the migration distribution of every energy and
    offset, where the cumulative distribution is linear between the bin edges"""
    prop = "P22"
    target = EB + ":energy_bias_resolution_from_energy_dispersion"
    samples = (60, 400)

    def inputs(self, b):
        n = b.dim("n_energy", 1, None if b.symbolic else 4)
        m = b.dim("n_edges", 2, None if b.symbolic else 9)
        o = b.dim("n_offset", 1, None if b.symbolic else 3)
        e = b.edges("migration_bins", m, pos=True)
        d = b.array("energy_dispersion", (n, m - 1, o), nonneg=True)
        if not b.symbolic and b.choice("mode", ["normalised", "free"]) == "normalised":
            d = np.array(d)
            d[np.random.default_rng(b.rng.randrange(10**9)).random(d.shape) < 0.3] = 0
            s = (d * np.diff(e)[None, :, None]).sum(axis=1, keepdims=True)
            d = np.where(s > 0, d / np.where(s > 0, s, 1), 0)
        return dict(energy_dispersion=d, migration_bins=e, _n=n, _m=m, _o=o)

    def post(self, S, a, r):
        n, m, o = a["_n"], a["_m"], a["_o"]
        d, e = a["energy_dispersion"], a["migration_bins"]
        E = lambda j: S.at(e, j)
        w = lambda j: S.at(e, j + 1) - S.at(e, j)
        # cumulative distribution at the upper edge of migration bin j
        C = lambda i, j, k: S.sum(j + 1, lambda t: S.at(d, i, t, k) * w(t))
        empty = lambda i, k: S.Not(S.any(m - 1, lambda j: S.lt(0, C(i, j, k))))
        bias, res = r
        yield "shape", S.And(S.shape_is(bias, n, o), S.shape_is(res, n, o))
        yield "nan exactly for empty distributions", (n, o), lambda i, k: S.And(
            S.Iff(S.isnan(S.at(bias, i, k)), empty(i, k)), S.Iff(S.isnan(S.at(res, i, k)), empty(i, k)))

        C = S.memo(C)
        # cumulative distribution at the upper edges, linear in between
        v = lambda i, k, q: S.interp(m - 1, lambda j: C(i, j, k), lambda j: E(j + 1), q)
        ok = lambda i, k: S.Not(empty(i, k))
        eq = lambda x, y: S.eq(x, y) if S.symbolic else S.eq(x, y, scale=10, rtol=1e-7)
        # concrete runs: a cumulative value within rounding of the quantile decides nothing
        far = lambda i, k, *q: S.true(True) if S.symbolic else all(abs(C(i, j, k) - p) > 1e-9 for j in range(m - 1) for p in q)
        yield "bias", (n, o), lambda i, k: S.Implies(S.And(ok(i, k), far(i, k, 0.5)), eq(S.at(bias, i, k) + 1, v(i, k, 0.5)))
        lo, hi = S.ncdf(-1), S.ncdf(1)
        yield "resolution", (n, o), lambda i, k: S.Implies(S.And(ok(i, k), far(i, k, lo, hi)), eq(2 * S.at(res, i, k), v(i, k, hi) - v(i, k, lo)))
