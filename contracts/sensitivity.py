"""Contracts of pyirf/sensitivity.py"""
from engine.harness import Contract, contract
from contracts.common import binned, Axis
import numpy as np

M = "pyirf.sensitivity"


def counts(b, name, dims, nan=True):
    return b.array(name, dims, nan=nan, gen=lambda r: r.choice([0.0, float(r.randrange(0, 12)), float(r.randrange(0, 2000)), r.uniform(0, 50), 10 ** r.uniform(0, 5), -1.0 if r.random() < 0.05 else 3.0]))


def alpha(b):
    return b.scalar("alpha", lo=0, strict="lo", gen=lambda r: r.choice([0.2, 0.1, 1.0, 0.5, r.uniform(0.05, 2)]))


def is_bad(S, on, off):
    """negative counts (nan is answered by nan first)"""
    return S.And(S.Not(S.isnan(on)), S.Not(S.isnan(off)), S.Or(S.lt(on, 0), S.lt(off, 0)))


def relative(S, sig, v, on, off, al, ms, mse, meb, monotone=True):
    """conditions on the relative sensitivity v of one bin"""
    nan = S.Or(S.isnan(on), S.isnan(off))
    ok = S.And(S.Not(nan), S.le(0, on), S.le(0, off))
    yield "nan counts", S.Implies(nan, S.isnan(v))
    if not S.symbolic and nan:
        return
    on, off = S.real(on), S.real(off)
    nb = off * al
    ns = on - nb
    yield "no excess", S.Implies(S.And(ok, S.le(ns, 0)), S.isinf(v))
    if not S.symbolic and not (ok and ns > 0):
        return
    F = lambda x: S.num(sig(ns * x + nb, off, al)) if S.symbolic else float(sig(ns * x + nb, off, al))
    naive = ms * S.sqrt(nb) / ns
    lo = S.ite(S.lt(1, off), 0.01 * naive, 1e-4)
    hi = S.ite(S.lt(1, off), naive * 10, 100)
    found = S.And(S.le(F(lo), ms), S.le(ms, F(hi)))
    fin = S.finite(v)
    active = S.And(ok, S.lt(0, ns))
    # the target can be met in the searched range: a number is returned
    if S.symbolic or not (abs(F(lo) - ms) < 1e-9 or abs(F(hi) - ms) < 1e-9):
        yield "found", S.Implies(S.And(active, found), fin)
    yield "never infinite", S.Implies(active, S.Not(S.isinf(v)))
    floor = max(mse, meb * nb) if not S.symbolic else S.ite(S.lt(mse, meb * nb), meb * nb, mse)
    ns_v = ns * S.real(v)
    if S.symbolic:
        yield "enough events", S.Implies(S.And(active, fin), S.le(floor, ns_v))
        yield "target or minimum", S.Implies(S.And(active, fin), S.Or(S.eq(F(S.real(v)), ms), S.And(S.eq(ns_v, floor), S.le(ms, F(S.real(v)))) if monotone else S.eq(ns_v, floor)))
    elif np.isfinite(v):
        yield "enough events", ns_v >= floor * (1 - 1e-9)
        f = F(v)
        yield "target or minimum", abs(f - ms) <= 1e-6 * max(1, abs(ms)) or (abs(ns_v - floor) <= 1e-9 * abs(floor) and f >= ms - 1e-6 * max(1, abs(ms)))


class _Relative(Contract):
    prop = "P18"
    target = M + ":relative_sensitivity"
    covers = (M + ":_relative_sensitivity",)
    samples = (80, 600)
    default = False
    ndim = 1

    def inputs(self, b):
        dims = tuple(b.dim(f"n{k}", 1, None if b.symbolic else 6) for k in range(self.ndim))
        a = dict(n_on=counts(b, "n_on", dims) if dims else b.scalar("n_on", nan=True, gen=lambda r: r.choice([0.0, float(r.randrange(40)), r.uniform(0, 1e4), -2.0])),
                 n_off=counts(b, "n_off", dims) if dims else b.scalar("n_off", nan=True, gen=lambda r: r.choice([0.0, float(r.randrange(40)), r.uniform(0, 1e4), 1.0])),
                 alpha=alpha(b))
        if b.choice("options", [True, False]):
            a.update(min_significance=b.scalar("min_significance", lo=0, strict="lo", gen=lambda r: r.choice([5.0, 3.0, r.uniform(0.5, 7)])),
                     min_signal_events=b.scalar("min_signal_events", nonneg=True, gen=lambda r: r.choice([10.0, 0.0, 100.0])),
                     min_excess_over_background=b.scalar("min_excess_over_background", nonneg=True, gen=lambda r: r.choice([0.05, 0.0, 0.5])))
        if not self.default:
            a["significance_function"] = b.significance("significance")
        return dict(a, _dims=dims)

    raises = [(ValueError, lambda S, a: S.any(a["_dims"], lambda *i: is_bad(S, S.at(a["n_on"], *i), S.at(a["n_off"], *i))))]

    def post(self, S, a, r):
        d = a["_dims"]
        yield "shape", S.shape_is(r, *d)
        sig = a.get("significance_function") or self.get("pyirf.statistics:li_ma_significance")
        o = [S.num(a[k]) if k in a else v for k, v in (("min_significance", 5), ("min_signal_events", 10), ("min_excess_over_background", 0.05))]
        al = S.num(a["alpha"])
        el = lambda i: relative(S, sig, S.at(r, *i), S.at(a["n_on"], *i), S.at(a["n_off"], *i), al, *o, monotone=True)
        if S.symbolic:
            for nm in ("nan counts", "no excess", "found", "never infinite", "enough events", "target or minimum"):
                yield nm, d, lambda *i: dict(el(i))[nm]
        else:
            yield "values", d, lambda *i: all(c for _, c in el(i))


@contract
class RelativeSensitivity(_Relative):
    """arrays, any significance function that grows with the counts"""


@contract
class RelativeSensitivity2D(_Relative):
    """two axes, as scanned by the cut optimisation"""
    ndim = 2


@contract
class RelativeSensitivityScalar(_Relative):
    """numbers"""
    ndim = 0


@contract
class RelativeSensitivityLiMa(_Relative):
    """with the default significance (Li & Ma, represented by the contract of P09: it does not decrease with n_on)"""
    default = True
    replace = {"pyirf.statistics:li_ma_significance": lambda b: b.significance("li_ma")}


# ---------------------------------------------------------------- sensitivity table
class _Table(Contract):
    prop = "P19"
    target = M + ":calculate_sensitivity"
    samples = (60, 400)
    same_bins = True
    species = ()
    covers = (M + ":relative_sensitivity", "pyirf.utils:check_histograms")

    def inputs(self, b):
        n = b.dim("n", 1, None if b.symbolic else 5)
        ue = b.unit("TeV", "bins")
        e = b.edges("bins", n + 1, ue, pos=True)
        t = []
        # the centre is whatever the histograms say: the mean of the borders, the geometric mean, ...
        mid = b.quantity("center", (n,), ue, pos=True)
        g = lambda r: r.choice([0.0, float(r.randrange(0, 40)), r.uniform(0, 1e4)])
        for s in ("signal", "background"):
            low, high = e[:-1], e[1:]
            center = mid if b.symbolic else mid.copy()
            if not self.same_bins and s == "background":
                low, center, high = (b.quantity(f"{c}_{s}", (n,), ue, pos=True) for c in ("low", "center", "high"))
                if not b.symbolic and b.rng.random() < 0.6:
                    q = [e[:-1].copy(), 0.5 * (e[:-1] + e[1:]), e[1:].copy()]
                    if b.rng.random() < 0.7:
                        q[b.rng.randrange(3)][b.rng.randrange(n)] *= 2
                    low, center, high = q
            cols = dict(reco_energy_low=low, reco_energy_high=high, reco_energy_center=center)
            cols["n"] = b.array(f"n_{s}", (n,), kind="i", lo=0, hi=None if b.symbolic else 5000)
            cols["n_weighted"] = b.array(f"n_weighted_{s}", (n,), nonneg=True, gen=g)
            for p in self.species if s == "background" else ():
                cols["n_" + p] = b.array(f"n_{p}", (n,), kind="i", lo=0, hi=None if b.symbolic else 5000)
                cols[f"n_{p}_weighted"] = b.array(f"n_{p}_weighted", (n,), nonneg=True, gen=g)
            t.append(b.table(cols))
        a = dict(signal_hist=t[0], background_hist=t[1], alpha=alpha(b))
        if b.choice("options", [True, False]):
            a.update(min_significance=b.scalar("min_significance", lo=0, strict="lo", gen=lambda r: r.choice([5.0, 3.0, r.uniform(0.5, 7)])),
                     min_signal_events=b.scalar("min_signal_events", nonneg=True, gen=lambda r: r.choice([10.0, 0.0, 100.0])),
                     min_excess_over_background=b.scalar("min_excess_over_background", nonneg=True, gen=lambda r: r.choice([0.05, 0.0, 0.5])))
        a["significance_function"] = b.significance("significance")
        return dict(a, _n=n, _ue=ue)

    def _differ(S, a):
        e = lambda t, c, i: S.at(S.col(a[t], f"reco_energy_{c}"), i)
        return S.any([a["_n"]], lambda i: S.Or(*[S.Not(S.ieq(e("signal_hist", c, i), e("background_hist", c, i))) for c in ("low", "center", "high")]))

    raises = [(ValueError, _differ)]

    def post(self, S, a, r):
        n = a["_n"]
        sg, bg, al = a["signal_hist"], a["background_hist"], S.num(a["alpha"])
        bins = ["reco_energy_low", "reco_energy_high", "reco_energy_center"]
        own = ["n_signal", "n_signal_weighted", "n_background", "n_background_weighted", "significance", "relative_sensitivity"]
        more = [f"n_{p}{w}" for p in self.species for w in ("", "_weighted")]
        yield "columns", S.cols_are(r, bins + own + more)
        yield "rows", S.And(*[S.shape_is(S.col(r, c), n) for c in bins + own + more])
        for c in bins:
            yield c, n, lambda i: S.ieq(S.at(S.to(S.col(r, c), a["_ue"]), i), S.at(S.to(S.col(sg, c), a["_ue"]), i))
        c = lambda t, k, i: S.at(S.col(t, k), i)
        for new, old in [("n_background", "n"), ("n_background_weighted", "n_weighted")] + [(k, k) for k in more]:
            yield new, n, lambda i: S.ieq(c(r, new, i), c(bg, old, i))
        on = lambda i: c(sg, "n_weighted", i) + al * c(bg, "n_weighted", i)
        # the very function under the contract of P18, applied to the counts of this row
        on_all = S.col(sg, "n_weighted") + a["alpha"] * S.col(bg, "n_weighted")
        opts = {k: a[k] for k in ("min_significance", "min_signal_events", "min_excess_over_background", "significance_function") if k in a}
        want = self.get(M + ":relative_sensitivity")(on_all, S.col(bg, "n_weighted"), a["alpha"], **opts)
        rel = lambda i: c(r, "relative_sensitivity", i)
        yield "relative_sensitivity", n, lambda i: S.eq(rel(i), S.at(want, i), rtol=1e-9)
        yield "n_signal", n, lambda i: S.eq(c(r, "n_signal", i), c(sg, "n", i) * rel(i), rtol=1e-9)
        yield "n_signal_weighted", n, lambda i: S.eq(c(r, "n_signal_weighted", i), c(sg, "n_weighted", i) * rel(i), rtol=1e-9)
        sig = a["significance_function"]
        if S.symbolic:
            # rows without a finite relative sensitivity have no meaningful significance
            fin = lambda i: S.finite(rel(i))
            yield "significance", n, lambda i: S.Implies(fin(i), S.eq(
                c(r, "significance", i), S.num(sig(S.real(c(sg, "n_weighted", i)) * S.real(rel(i)) + al * c(bg, "n_weighted", i), c(bg, "n_weighted", i), al))))
        else:
            yield "significance", n, lambda i: not S.finite(rel(i)) or S.eq(
                c(r, "significance", i), float(sig(c(sg, "n_weighted", i) * rel(i) + al * c(bg, "n_weighted", i), c(bg, "n_weighted", i), al)), rtol=1e-6, scale=1e-3)


@contract
class SensitivityTable(_Table):
    """histograms of the same binning"""


@contract
class SensitivityTableSpecies(_Table):
    """the background counts per particle type are handed on"""
    species = ("proton",)


@contract
class SensitivityTableBins(_Table):
    """other bins are refused"""
    same_bins = False


# ---------------------------------------------------------------- background estimate
class _Background(Contract):
    """the events of the energy bin inside the ring of offsets, scaled to the on region of that
    bin (theta cut at the bin centre) and by the exposure ratio"""
    prop = "P20"
    target = M + ":estimate_background"
    covers = ("pyirf.binning:create_histogram_table", "pyirf.utils:cone_solid_angle", "pyirf.binning:bin_center")
    samples = (80, 600)
    weights = types = False
    same_bins = False

    def inputs(self, b):
        n, m = b.dim("n", 0), b.dim("m", 2, None if b.symbolic else 6)
        ub = b.unit("TeV", "bins")
        e = b.edges("bins", m, ub, pos=True)
        x = binned(b, "reco_energy", (n,), b.unit("TeV", "events"), e, pos=True)
        uo = b.unit("deg", "offset")
        lo = b.quantity("fov_offset_min", (), b.unit("deg", "min"), nonneg=True, gen=lambda r: r.choice([0.0, r.uniform(0, 1)]))
        hi = b.quantity("fov_offset_max", (), b.unit("deg", "max"), nonneg=True, gen=lambda r: r.choice([1.0, 2.5, r.uniform(0, 3)]))
        S = b.S
        b.require(S.And(S.lt(S.num(lo, "rad"), S.num(hi, "rad")), S.le(S.num(hi, "rad"), S.pi)))
        if not b.symbolic:
            b.require(S.num(hi, "rad") - S.num(lo, "rad") > 1e-7)
        kw = {} if b.symbolic else dict(gen=lambda r: r.choice([lo.to_value(uo), hi.to_value(uo)]) if r.random() < 0.2 else r.uniform(0, 1.3 * hi.to_value(uo)))
        off = b.quantity("offset", (n,), uo, nan=True, nonneg=True, **kw)
        if not b.symbolic:      # keep off the rounding of the unit conversion
            for q in (lo, hi):
                v = off.to_value("deg") - q.to_value("deg")
                b.require(not np.any((np.abs(v) < 1e-9) & (off.unit != q.unit)))
        cols = {"reco_energy": x, "reco_source_fov_offset": off}
        if self.weights:
            cols["weight"] = b.array("weight", (n,), nonneg=True)
        if self.types:
            cols["particle_type"] = b.strings("particle_type", n)
        if self.same_bins:
            k, cen = m - 1, 0.5 * (e[:-1] + e[1:])
        else:
            k = b.dim("k", 1, None if b.symbolic else 5)
            cen = b.edges("center", k, b.unit("TeV", "cut_bins"), pos=True)
        cut = b.quantity("cut", (k,), b.unit("deg", "cut"), nonneg=True, gen=lambda r: r.uniform(0, 0.6))
        b.require_all(k, lambda j: S.le(S.at(S.to(cut, "rad"), j), S.pi))
        return dict(events=b.table(cols), reco_energy_bins=e, theta_cuts=b.table({"center": cen, "cut": cut}), alpha=alpha(b),
                    fov_offset_min=lo, fov_offset_max=hi, _n=n, _m=m, _k=k, _x=x, _off=off, _cen=cen, _cut=cut)

    def post(self, S, a, r):
        n, m, k = a["_n"], a["_m"], a["_k"]
        e = Axis(S, a["reco_energy_bins"], a["_x"], "TeV")
        off = S.to(a["_off"], "deg" if S.symbolic else S.unit(a["_off"]))
        lo, hi = (S.num(a["fov_offset_" + s], "deg" if S.symbolic else S.unit(a["_off"])) for s in ("min", "max"))
        ring = lambda i: S.And(S.le(lo, S.at(off, i)), S.lt(S.at(off, i), hi))
        cen, cut = S.to(a["_cen"], "TeV"), S.to(a["_cut"], "rad")
        E = lambda j: S.at(e.e, j)
        if self.same_bins:
            theta = lambda j: S.at(cut, j)
        else:
            theta = lambda j: S.interp(k, lambda q: S.at(cen, q), lambda q: S.at(cut, q), (E(j) + E(j + 1)) / 2)
        al = S.num(a["alpha"])
        ring_area = S.cos(S.num(a["fov_offset_min"], "rad")) - S.cos(S.num(a["fov_offset_max"], "rad"))
        yield "columns", S.cols_are(r, ["reco_energy_low", "reco_energy_high", "reco_energy_center", "n", "n_weighted"], extra=True)
        for s, f in (("low", lambda j: E(j)), ("high", lambda j: E(j + 1)), ("center", lambda j: (E(j) + E(j + 1)) / 2)):
            c = S.to(S.col(r, "reco_energy_" + s), "TeV")
            yield "rows " + s, S.shape_is(c, m - 1)
            yield s, m - 1, lambda j, c=c, f=f: S.eq(S.at(c, j), f(j))
        tol = {} if S.symbolic else dict(rtol=1e-5, scale=1e-6)
        w = (lambda i: S.at(S.col(a["events"], "weight"), i)) if self.weights else (lambda i: 1)
        # N * alpha * ring area = count * on area
        scaled = lambda c, j, cnt: S.eq(S.at(c, j) * al * ring_area, cnt * (1 - S.cos(theta(j))), **tol)
        N, W = S.col(r, "n"), S.col(r, "n_weighted")
        yield "shape", S.And(S.shape_is(N, m - 1), S.shape_is(W, m - 1))
        hit = lambda i, j: S.And(ring(i), e.inside(i, j))
        yield "n", m - 1, lambda j: scaled(N, j, S.count(n, lambda i: hit(i, j)))
        yield "n_weighted", m - 1, lambda j: scaled(W, j, S.sum(n, w, lambda i: hit(i, j)) if self.weights else S.count(n, lambda i: hit(i, j)))
        if self.types:
            t = S.col(a["events"], "particle_type")
            same = lambda j, i: S.streq(S.at(t, j), S.at(t, i))
            for s in ("", "_weighted"):
                fa = lambda i, s=s: S.fam(r, "n_", S.at(t, i), s)
                yield "column per type" + s, n, lambda i, s=s: S.Implies(ring(i), fa(i, s)[0])
                cnt = lambda i, k, s=s: S.sum(n, w, lambda q: S.And(same(q, i), hit(q, k))) if self.weights and s else S.count(n, lambda q: S.And(same(q, i), hit(q, k)))
                yield "counts per type" + s, (n, m - 1), lambda i, k, s=s: S.Implies(ring(i), S.eq(
                    S.fam_at(r, "n_", S.at(t, i), s, k) * al * ring_area, cnt(i, k) * (1 - S.cos(theta(k))), **tol))


@contract
class BackgroundEstimate(_Background):
    """unweighted events, theta cuts with their own bins"""


@contract
class BackgroundEstimateSameBins(_Background):
    """theta cuts of the same bins apply bin by bin; weighted events"""
    weights = same_bins = True


@contract
class BackgroundEstimateTypes(_Background):
    """per particle type"""
    types = weights = same_bins = True
