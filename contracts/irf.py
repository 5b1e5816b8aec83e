"""Contracts of pyirf/irf: effective area, energy dispersion, PSF, background"""
from engine.harness import Contract, contract
import numpy as np
from .common import binned, binned_array, Axis, Cells, hist_bin

from .simulations import info_inputs

ED = "pyirf.irf.energy_dispersion"
AREA = "pyirf.irf.effective_area"
INFO = "pyirf.simulations:SimulatedEventsInfo"


# ---------------------------------------------------------------- effective area
@contract
class EffectiveArea(Contract):
    """fraction of the simulated events that is selected, times the area"""
    prop = "P11"
    target = AREA + ":effective_area"

    def inputs(self, b):
        dims = {"scalar": (), "1d": None, "2d": None}
        k = b.choice("shape", ["1d", "2d", "scalar"])
        dims = (b.dim("n", 0),) if k == "1d" else (b.dim("n", 0), b.dim("m", 0)) if k == "2d" else ()
        mk = (lambda n, **q: b.array(n, dims, **q)) if dims else (lambda n, **q: b.scalar(n, **q))
        sel = mk("n_selected", nonneg=True) if b.choice("weighted", [True, False]) else mk("n_selected", kind="i", lo=0, hi=10**6)
        sim = mk("n_simulated", pos=True)
        ua = b.choice("area_unit", ["m2", "cm2"])
        return dict(n_selected=sel, n_simulated=sim, area=b.quantity("area", (), ua, pos=True), _dims=dims)

    def post(self, S, a, r):
        v = S.to(r, "m2")
        d = a["_dims"]
        A = S.num(a["area"], "m2")
        if d:
            yield "shape", S.shape_is(v, *d)
            yield "value", d, lambda *i: S.eq(S.at(v, *i) * S.at(a["n_simulated"], *i), S.at(a["n_selected"], *i) * A)
        else:
            yield "value", S.eq(S.num(v) * S.num(a["n_simulated"]), S.num(a["n_selected"]) * A)


@contract
class EffectiveAreaUnit(Contract):
    """an area in any other kind of unit is refused"""
    prop = "P11"
    target = AREA + ":effective_area"
    raises = [((TypeError, "UnitsError"), lambda S, a: S.true(True))]

    def inputs(self, b):
        k = b.choice("kind", ["length", "angle", "plain"])
        n = (b.dim("n", 0),)
        area = b.scalar("area", pos=True) if k == "plain" else b.quantity("area", (), "m" if k == "length" else "deg", pos=True)
        return dict(n_selected=b.array("n_selected", n, nonneg=True), n_simulated=b.array("n_simulated", n, pos=True), area=area)


class InfoStub:
    """the callee through its contract only: some number of showers per bin of the bins asked for"""

    def __init__(self, impact, n, method):
        self.max_impact, self._n, self._method, self._asked = impact, n, method, []

    def __getattr__(self, k):
        if k == self._method:
            return self._showers
        from engine.arrays import Unsupported
        raise Unsupported("SimulatedEventsInfo." + k + " is not part of the contract of the callee")

    def _showers(self, *args, **kw):
        self._asked.append((args, kw))
        return self._n


class _Area(Contract):
    """relative to the contract of the simulated showers (P10)"""
    prop = "P11"
    assumes = ("the numbers of simulated showers per bin are taken from the contract of P10",)
    order = ("energy_bins", "fov_bins")
    samples = (60, 500)
    showers = ""
    axes = ()

    def inputs(self, b):
        n = b.dim("n", 0)
        info, meta = info_inputs(b)
        cols, bins = {}, {}
        for name, col, base, k in self.axes:
            u = b.unit(base, name)
            e = b.edges(name, b.dim("n_" + name, 2, None if b.symbolic else 5), u, **k)
            bins[name] = e
            cols[col] = binned(b, col, (n,), b.unit(base, col), e, **k)
            if name in ("fov_offset_bins",):
                b.require(b.S.le(b.S.at(b.S.to(e, "rad"), b.S.n(e) - 1), b.S.pi))
            if name == "fov_latitude_bins":
                x = b.S.to(e, "rad")
                b.require(b.S.And(b.S.le(-b.S.pi / 2, b.S.at(x, 0)), b.S.le(b.S.at(x, b.S.n(e) - 1), b.S.pi / 2)))
        ev = b.table(dict(cols))
        n_sim = b.quantity("n_simulated", tuple(b.S.n(x) - 1 for x in bins.values()), "", nonneg=True) if b.symbolic else None
        out = dict(selected_events=ev, **bins, _info=info, _cols=cols, _n=n, _sim=n_sim)
        out.update(self.more(b, bins))
        return out

    def more(self, b, bins):
        return {}

    def call(self, f, a):
        bins = {k: a[k] for k, *_ in self.axes}
        kw = {"subpixels": a["_sub"]} if "_sub" in a else {}
        if a["_sim"] is None:
            info = self.get(INFO)(**a["_info"])
            return f(a["selected_events"], info, **bins, **kw), getattr(info, self.showers)(*bins.values(), **kw), None
        s = InfoStub(a["_info"]["max_impact"], a["_sim"], self.showers)
        return f(a["selected_events"], s, **bins, **kw), a["_sim"], s

    def post(self, S, a, r):
        area, sim, stub = r
        area = S.to(area, "m2")
        sim = S.to(sim, "") if S.has_unit(sim) else sim
        ax = [Axis(S, a[name], a["_cols"][col], base) for name, col, base, _ in self.axes]
        nb = [x.nb for x in ax]
        c = Cells(S, a["_n"], [x.inside for x in ax], nb)
        R = S.num(a["_info"]["max_impact"], "m")
        yield "shape", S.shape_is(area, *nb)
        yield "area", tuple(nb), lambda *i: S.Implies(
            S.lt(0, S.at(sim, *i)), S.eq(S.at(area, *i) * S.at(sim, *i), c(*i) * S.pi * R * R))
        for args, kw in stub._asked if stub else ():
            got = [*args, *(kw[k] for k in self.order[len(args):] if k in kw)]
            if "_sub" in a:
                yield "sub-pixels", S.ieq(got[-1] if len(got) > len(self.axes) else 20, a["_sub"])
            for g, (name, _, base, _) in zip(got, self.axes):
                yield "asked for " + name, S.shape_is(g, S.n(a[name]))
                g, w = S.to(g, base), S.to(a[name], base)
                yield "asked for " + name, S.n(a[name]), lambda i, g=g, w=w: S.eq(S.at(g, i), S.at(w, i))


E_AXIS = ("true_energy_bins", "true_energy", "TeV", dict(pos=True))
F_AXIS = ("fov_offset_bins", "true_source_fov_offset", "deg", dict(nonneg=True))


@contract
class AreaPerEnergy(_Area):
    target = AREA + ":effective_area_per_energy"
    showers = "calculate_n_showers_per_energy"
    axes = (E_AXIS,)


@contract
class AreaPerEnergyAndFov(_Area):
    target = AREA + ":effective_area_per_energy_and_fov"
    showers = "calculate_n_showers_per_energy_and_fov"
    axes = (E_AXIS, F_AXIS)


@contract
class AreaPolar(_Area):
    target = AREA + ":effective_area_3d_polar"
    showers = "calculate_n_showers_3d_polar"
    order = ("energy_bins", "fov_offset_bins", "fov_position_angle_bins")
    axes = (E_AXIS, F_AXIS, ("fov_position_angle_bins", "true_source_fov_position_angle", "rad", dict(nonneg=True)))


@contract
class AreaLonLat(_Area):
    target = AREA + ":effective_area_3d_lonlat"
    showers = "calculate_n_showers_3d_lonlat"
    axes = (E_AXIS, ("fov_longitude_bins", "true_source_fov_lon", "deg", {}), ("fov_latitude_bins", "true_source_fov_lat", "deg", {}))
    order = ("energy_bins", "fov_longitude_bins", "fov_latitude_bins", "subpixels")

    def more(self, b, bins):
        return dict(_sub=b.dim("subpixels", 1, None if b.symbolic else 6))


# ---------------------------------------------------------------- energy dispersion
@contract
class EnergyDispersion(Contract):
    """share of the events of a (true energy, offset) cell per unit of migration"""
    prop = "P12"
    target = ED + ":energy_dispersion"
    covers = (ED + ":_normalize_hist",)

    def inputs(self, b):
        n = b.dim("n", 0)
        eb = b.edges("true_energy_bins", b.dim("m", 2), b.unit("TeV", "bins"), pos=True)
        fb = b.edges("fov_offset_bins", b.dim("k", 2), b.unit("deg", "fov"), nonneg=True)
        mb = b.edges("migration_bins", b.dim("l", 2), None, nonneg=True)
        true = binned(b, "true_energy", (n,), b.unit("TeV", "true"), eb, pos=True)
        reco = self.reco(b, n, true, mb)
        off = binned(b, "offset", (n,), b.unit("deg", "off"), fb, nonneg=True)
        ev = b.table({"true_energy": true, "reco_energy": reco, "true_source_fov_offset": off})
        return dict(selected_events=ev, true_energy_bins=eb, fov_offset_bins=fb, migration_bins=mb, _n=n, _c=(true, reco, off))

    def reco(self, b, n, true, mb):
        un = b.unit("TeV", "reco")
        if b.symbolic:
            return b.quantity("reco_energy", (n,), un, nonneg=True)
        mu = binned_array(b, "mu", (n,), mb, nonneg=True)
        # never within rounding of a migration edge
        ok = np.all(np.abs(mu[:, None] - mb[None, :]) > 1e-9 * np.maximum(mb[None, :], 1e-3), axis=1) if n else np.ones(0, bool)
        mu = np.where(ok, mu, mu * 1.001 + 1e-4)
        return (mu * true).to(un)

    def post(self, S, a, r):
        true, reco, off = a["_c"]
        n = a["_n"]
        e, f = Axis(S, a["true_energy_bins"], true, "TeV"), Axis(S, a["fov_offset_bins"], off, "deg")
        m = Axis(S, a["migration_bins"], None)
        t0, r0 = S.to(true, "TeV"), S.to(reco, "TeV")
        mu = lambda i: S.at(r0, i) / S.at(t0, i)
        mbin = lambda i, j: hist_bin(S, lambda q: S.at(m.e, q), m.m, j, mu(i))
        yield "shape", S.shape_is(r, e.nb, m.nb, f.nb)
        c = Cells(S, n, (e.inside, mbin, f.inside), (e.nb, m.nb, f.nb))
        tot = lambda x, z: S.sum(m.nb, lambda y: c(x, y, z))
        yield "density", (e.nb, m.nb, f.nb), lambda x, y, z: S.eq(
            S.at(r, x, y, z), S.ite(S.lt(0, tot(x, z)), c(x, y, z) / S.ite(S.lt(0, tot(x, z)), tot(x, z), 1) / m.width(y), 0))
        yield "not negative", (e.nb, m.nb, f.nb), lambda x, y, z: S.le(0, S.at(r, x, y, z))
        yield "normalized", (e.nb, f.nb), lambda x, z: S.eq(S.sum(m.nb, lambda y: S.at(r, x, y, z) * m.width(y)), S.ite(S.lt(0, tot(x, z)), 1, 0))


@contract
class MigrationMatrix(Contract):
    """share of the events of a (true energy, offset) cell in every bin of reconstructed energy"""
    prop = "P12"
    target = ED + ":energy_migration_matrix"

    def inputs(self, b):
        n = b.dim("n", 0)
        eb = b.edges("true_energy_bins", b.dim("m", 2), b.unit("TeV", "bins"), pos=True)
        fb = b.edges("fov_offset_bins", b.dim("k", 2), b.unit("deg", "fov"), nonneg=True)
        rb = b.edges("reco_energy_bins", b.dim("l", 2), b.unit("TeV", "rbins"), pos=True)
        c = (binned(b, "true_energy", (n,), b.unit("TeV", "true"), eb, pos=True), binned(b, "reco_energy", (n,), b.unit("TeV", "reco"), rb, pos=True),
             binned(b, "offset", (n,), b.unit("deg", "off"), fb, nonneg=True))
        ev = b.table({"true_energy": c[0], "reco_energy": c[1], "true_source_fov_offset": c[2]})
        return dict(events=ev, true_energy_bins=eb, reco_energy_bins=rb, fov_offset_bins=fb, _n=n, _c=c)

    def post(self, S, a, r):
        true, reco, off = a["_c"]
        n = a["_n"]
        e, f, m = Axis(S, a["true_energy_bins"], true, "TeV"), Axis(S, a["fov_offset_bins"], off, "deg"), Axis(S, a["reco_energy_bins"], reco, "TeV")
        yield "shape", S.shape_is(r, e.nb, m.nb, f.nb)
        c = Cells(S, n, (e.inside, m.inside, f.inside), (e.nb, m.nb, f.nb))
        tot = lambda x, z: S.sum(m.nb, lambda y: c(x, y, z))
        yield "share", (e.nb, m.nb, f.nb), lambda x, y, z: S.eq(
            S.at(r, x, y, z), S.ite(S.lt(0, tot(x, z)), c(x, y, z) / S.ite(S.lt(0, tot(x, z)), tot(x, z), 1), 0))
        yield "not negative", (e.nb, m.nb, f.nb), lambda x, y, z: S.le(0, S.at(r, x, y, z))
        yield "normalized", (e.nb, f.nb), lambda x, z: S.eq(S.sum(m.nb, lambda y: S.at(r, x, y, z)), S.ite(S.lt(0, tot(x, z)), 1, 0))


# ---------------------------------------------------------------- dispersion -> migration
@contract
class DispersionToMigration(Contract):
    """relative to the contract of the rebinning (P04)"""
    prop = "P13"
    target = ED + ":energy_dispersion_to_migration"
    samples = (60, 500)

    def inputs(self, b):
        size = lambda name, lo, hi: b.dim(name, lo, None if b.symbolic else hi)
        m, l, k = size("disp_true", 4, 12), size("migra", 4, 12), size("fov", 1, 4)
        td = b.edges("disp_true_energy_edges", m, b.unit("TeV", "old"), pos=True)
        mig = b.edges("disp_migration_edges", l, None, pos=True)
        un = b.unit("TeV", "new")
        ur = b.unit("TeV", "reco")
        tn = b.edges("new_true_energy_edges", size("new_true", 2, 8), un, pos=True)
        rn = b.edges("new_reco_energy_edges", size("new_reco", 2, 8), ur, pos=True)
        mode = "free" if b.symbolic else b.choice("mode", ["same true bins", "aligned", "free"])
        if not b.symbolic and mode != "free":
            tn = td.copy() if mode == "same true bins" else td[:2].copy()
            e = float((tn[0] + tn[1]).to_value(ur)) / 2
            if mode == "aligned":
                rn = np.asarray(mig, float) * e * b.u.Unit(ur)
            b.log["new_true_energy_edges"], b.log["new_reco_energy_edges"] = str(tn), str(rn)
        d = b.array("dispersion_matrix", (m - 1, l - 1, k), nonneg=True)
        return dict(dispersion_matrix=d, disp_true_energy_edges=td, disp_migration_edges=mig, new_true_energy_edges=tn, new_reco_energy_edges=rn, _k=k)

    def call(self, f, a):
        r = f(**{x: y for x, y in a.items() if x[0] != "_"})
        re = self.get("pyirf.binning:resample_histogram1d")
        d, w = a["dispersion_matrix"], a["disp_migration_edges"]
        p = d * (w[1:] - w[:-1])[None, :, None]
        return r, re(p, a["disp_true_energy_edges"], a["new_true_energy_edges"], axis=0)

    def post(self, S, a, r):
        M, T = r
        mig, tn, rn = a["disp_migration_edges"], S.to(a["new_true_energy_edges"], "TeV"), S.to(a["new_reco_energy_edges"], "TeV")
        nt, nr, nm, k = S.n(tn) - 1, S.n(rn) - 1, S.n(mig) - 1, a["_k"]
        yield "shape", S.shape_is(M, nt, nr, k)
        center = lambda i: (S.at(tn, i) + S.at(tn, i + 1)) / 2
        norm = lambda i, f: S.sum(nm, lambda y: S.at(T, i, y, f))
        nz = lambda i, f: S.Not(S.eq(norm(i, f), 0)) if S.symbolic else bool(norm(i, f) != 0)
        # concrete runs: skip cells whose norm is rounding residue
        ok = (lambda i, f: True) if S.symbolic else (
            lambda i, f: norm(i, f) == 0 or abs(norm(i, f)) > 1e-6 * sum(abs(S.at(T, i, y, f)) for y in range(nm)))
        lo, hi = (lambda i: S.at(mig, 0) * center(i)), (lambda i: S.at(mig, nm) * center(i))
        eps = 1 if S.symbolic else 1 + 1e-12
        part = lambda i, f, q: S.sum(q, lambda y: S.at(T, i, y, f)) / S.ite(nz(i, f), norm(i, f), 1)
        tol = {} if S.symbolic else dict(scale=10.0, rtol=1e-6)
        yield "outside the migration range", (nt, nr, k), lambda i, j, f: S.Implies(
            S.And(S.true(ok(i, f)), S.Or(S.lt(S.at(rn, j + 1) * eps, lo(i)), S.lt(hi(i) * eps, S.at(rn, j)))), S.eq(S.at(M, i, j, f), 0, **tol))
        yield "between migration edges", (nt, nr, k, nm + 1, nm + 1), lambda i, j, f, p, q: S.Implies(
            S.And(S.true(ok(i, f)), S.le(p, q), self.same(S, S.at(rn, j), S.at(mig, p) * center(i)), self.same(S, S.at(rn, j + 1), S.at(mig, q) * center(i))),
            S.eq(S.at(M, i, j, f), part(i, f, q) - part(i, f, p), **tol))
        yield "normalized", (nt, k), lambda i, f: S.Implies(
            S.And(S.true(ok(i, f)), S.lt(S.at(rn, 0) * eps, lo(i)), S.lt(hi(i) * eps, S.at(rn, nr))),
            S.eq(S.sum(nr, lambda j: S.at(M, i, j, f)), S.ite(nz(i, f), 1, 0), **tol))

    def same(self, S, x, y):
        return S.eq(x, y) if S.symbolic else bool(abs(x - y) < 1e-13 * abs(y))


# ---------------------------------------------------------------- PSF
@contract
class PsfTable(Contract):
    """share of the events of a (true energy, fov offset) cell per solid angle of the theta rings"""
    prop = "P14"
    target = "pyirf.irf.psf:psf_table"
    covers = ("pyirf.irf.psf:_normalize_psf", "pyirf.utils:cone_solid_angle")

    def inputs(self, b):
        n = b.dim("n", 0)
        eb = b.edges("true_energy_bins", b.dim("m", 2), b.unit("TeV", "bins"), pos=True)
        fb = b.edges("fov_offset_bins", b.dim("k", 2), b.unit("deg", "fov"), nonneg=True)
        ub = b.unit("deg", "theta_bins")
        tb = b.edges("source_offset_bins", b.dim("l", 2), ub, nonneg=True)
        b.require(b.S.le(b.S.at(b.S.to(tb, "rad"), b.S.n(tb) - 1), b.S.pi))
        c = (binned(b, "true_energy", (n,), b.unit("TeV", "true"), eb, pos=True), binned(b, "offset", (n,), b.unit("deg", "off"), fb, nonneg=True),
             binned(b, "theta", (n,), b.unit("deg", "theta"), tb, nonneg=True))
        ev = b.table({"true_energy": c[0], "true_source_fov_offset": c[1], "theta": c[2]})
        return dict(events=ev, true_energy_bins=eb, source_offset_bins=tb, fov_offset_bins=fb, _n=n, _c=c)

    def post(self, S, a, r):
        n, (true, off, th) = a["_n"], a["_c"]
        e, f, t = Axis(S, a["true_energy_bins"], true, "TeV"), Axis(S, a["fov_offset_bins"], off, "deg"), Axis(S, a["source_offset_bins"], th, "deg")
        tr = S.to(a["source_offset_bins"], "rad")
        om = lambda q: 2 * S.pi * (S.cos(S.at(tr, q)) - S.cos(S.at(tr, q + 1)))
        v = S.to(r, "1/sr")
        c = Cells(S, n, (e.inside, f.inside, t.inside), (e.nb, f.nb, t.nb))
        tot = lambda x, z: S.sum(t.nb, lambda q: c(x, z, q))
        yield "shape", S.shape_is(v, e.nb, f.nb, t.nb)
        wide = (lambda q: True) if S.symbolic else (lambda q: bool(om(q) > 1e-9))
        yield "density", (e.nb, f.nb, t.nb), lambda x, z, q: S.Implies(S.true(wide(q)), S.eq(
            S.at(v, x, z, q), S.ite(S.lt(0, tot(x, z)), c(x, z, q) / S.ite(S.lt(0, tot(x, z)), tot(x, z), 1) / om(q), 0), **self.tol(S)))
        yield "not negative", (e.nb, f.nb, t.nb), lambda x, z, q: S.le(0, S.at(v, x, z, q))
        yield "normalized", (e.nb, f.nb), lambda x, z: S.Implies(S.true(all(wide(q) for q in range(t.nb)) if not S.symbolic else True), S.eq(
            S.sum(t.nb, lambda q: S.at(v, x, z, q) * om(q)), S.ite(S.lt(0, tot(x, z)), 1, 0), **self.tol(S)))

    def tol(self, S):
        return {} if S.symbolic else dict(rtol=1e-5)


# ---------------------------------------------------------------- background rates
BKG = "pyirf.irf.background"
RATE = "s-1 TeV-1 sr-1"


class _Background(Contract):
    prop = "P15"

    def weighted(self, b, n):
        if b.choice("weights", ["plain", "quantity"]) == "plain":
            return b.array("weight", (n,), nonneg=True)
        return b.quantity("weight", (n,), "", nonneg=True)


@contract
class Background2D(_Background):
    target = BKG + ":background_2d"
    covers = ("pyirf.utils:cone_solid_angle",)

    def inputs(self, b):
        n = b.dim("n", 0)
        eb = b.edges("reco_energy_bins", b.dim("m", 2), b.unit("TeV", "bins"), pos=True)
        fb = b.edges("fov_offset_bins", b.dim("k", 2), b.unit("deg", "fov"), nonneg=True)
        b.require(b.S.le(b.S.at(b.S.to(fb, "rad"), b.S.n(fb) - 1), b.S.pi))
        c = (binned(b, "reco_energy", (n,), b.unit("TeV", "reco"), eb, pos=True), binned(b, "offset", (n,), b.unit("deg", "off"), fb, nonneg=True))
        w = self.weighted(b, n)
        ev = b.table({"reco_energy": c[0], "reco_source_fov_offset": c[1], "weight": w})
        t = b.quantity("t_obs", (), b.unit("s", "t_obs"), pos=True)
        return dict(events=ev, reco_energy_bins=eb, fov_offset_bins=fb, t_obs=t, _n=n, _c=c, _w=w)

    def post(self, S, a, r):
        n, (reco, off) = a["_n"], a["_c"]
        w = S.to(a["_w"], "") if S.has_unit(a["_w"]) else a["_w"]
        e, f = Axis(S, a["reco_energy_bins"], reco, "TeV"), Axis(S, a["fov_offset_bins"], off, "deg")
        fr = S.to(a["fov_offset_bins"], "rad")
        om = lambda q: 2 * S.pi * (S.cos(S.at(fr, q)) - S.cos(S.at(fr, q + 1)))
        v, t = S.to(r, RATE), S.num(a["t_obs"], "s")
        yield "unit", S.unit_is(r, RATE)
        yield "shape", S.shape_is(v, e.nb, f.nb)
        c = Cells(S, n, (e.inside, f.inside), (e.nb, f.nb), lambda i: S.at(w, i))
        wide = (lambda q: True) if S.symbolic else (lambda q: bool(om(q) > 1e-9))
        yield "rate", (e.nb, f.nb), lambda x, z: S.Implies(S.true(wide(z)), S.eq(
            S.at(v, x, z) * e.width(x) * t * om(z), c(x, z), **({} if S.symbolic else dict(rtol=1e-5))))


@contract
class Background3D(_Background):
    target = BKG + ":background_3d_lonlat"
    covers = ("pyirf.utils:rectangle_solid_angle",)

    def inputs(self, b):
        n = b.dim("n", 0)
        eb = b.edges("reco_energy_bins", b.dim("m", 2), b.unit("TeV", "bins"), pos=True)
        lo = b.edges("fov_lon_bins", b.dim("k", 2), b.unit("deg", "lonbins"))
        la = b.edges("fov_lat_bins", b.dim("l", 2), b.unit("deg", "latbins"))
        lr = b.S.to(la, "rad")
        b.require(b.S.And(b.S.le(-b.S.pi / 2, b.S.at(lr, 0)), b.S.le(b.S.at(lr, b.S.n(la) - 1), b.S.pi / 2)))
        c = (binned(b, "reco_energy", (n,), b.unit("TeV", "reco"), eb, pos=True), binned(b, "lon", (n,), b.unit("deg", "lon"), lo), binned(b, "lat", (n,), b.unit("deg", "lat"), la))
        w = self.weighted(b, n)
        ev = b.table({"reco_energy": c[0], "reco_source_fov_lon": c[1], "reco_source_fov_lat": c[2], "weight": w})
        t = b.quantity("t_obs", (), b.unit("s", "t_obs"), pos=True)
        return dict(events=ev, reco_energy_bins=eb, fov_lon_bins=lo, fov_lat_bins=la, t_obs=t, _n=n, _c=c, _w=w)

    def post(self, S, a, r):
        n, (reco, lon, lat) = a["_n"], a["_c"]
        w = S.to(a["_w"], "") if S.has_unit(a["_w"]) else a["_w"]
        e, f, g = Axis(S, a["reco_energy_bins"], reco, "TeV"), Axis(S, a["fov_lon_bins"], lon, "deg"), Axis(S, a["fov_lat_bins"], lat, "deg")
        x0, y0 = S.to(a["fov_lon_bins"], "rad"), S.to(a["fov_lat_bins"], "rad")
        om = lambda p, q: (S.at(x0, p + 1) - S.at(x0, p)) * (S.sin(S.at(y0, q + 1)) - S.sin(S.at(y0, q)))
        v, t = S.to(r, RATE), S.num(a["t_obs"], "s")
        yield "unit", S.unit_is(r, RATE)
        yield "shape", S.shape_is(v, e.nb, f.nb, g.nb)
        c = Cells(S, n, (e.inside, f.inside, g.inside), (e.nb, f.nb, g.nb), lambda i: S.at(w, i))
        wide = (lambda p, q: True) if S.symbolic else (lambda p, q: bool(om(p, q) > 1e-9))
        yield "rate", (e.nb, f.nb, g.nb), lambda x, p, q: S.Implies(S.true(wide(p, q)), S.eq(
            S.at(v, x, p, q) * e.width(x) * t * om(p, q), c(x, p, q), **({} if S.symbolic else dict(rtol=1e-5))))
