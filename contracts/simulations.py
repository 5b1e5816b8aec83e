"""Contracts of pyirf/simulations.py"""
from engine.harness import Contract, contract
import numpy as np

T = "pyirf.simulations:SimulatedEventsInfo"


def info_inputs(b, cone=True):
    ue, uv, ui = b.unit("TeV", "range"), b.unit("deg", "cone"), b.unit("m", "impact")
    n = b.scalar("n_showers", kind="i", lo=1, hi=10**9)
    emin = b.quantity("energy_min", (), ue, pos=True)
    emax = b.quantity("energy_max", (), b.unit("TeV", "range_max"), pos=True)
    b.require(b.S.lt(b.S.num(emin, ue), b.S.num(emax, ue)))
    kind = b.choice("index", ["steeper", "minus one"])
    idx = b.scalar("index", lo=-6, hi=-1, strict="hi") if kind == "steeper" else -1
    if cone:
        vmin = b.quantity("viewcone_min", (), uv, nonneg=True, gen=lambda r: r.choice([0.0, r.uniform(0, 0.2)]))
        vmax = b.quantity("viewcone_max", (), uv, nonneg=True, gen=lambda r: r.choice([r.uniform(0.2, 1.5), r.uniform(0.01, 0.1)]))
        b.require(b.S.lt(b.S.num(vmin, uv), b.S.num(vmax, uv)))
        b.require(b.S.le(b.S.num(vmax, RAD), b.S.pi))
    else:
        vmin = b.quantity("viewcone_min", (), uv, nonneg=True)
        vmax = b.quantity("viewcone_max", (), uv, nonneg=True)
    imp = b.quantity("max_impact", (), ui, pos=True)
    return dict(n_showers=n, energy_min=emin, energy_max=emax, max_impact=imp, spectral_index=idx, viewcone_min=vmin, viewcone_max=vmax), dict(
        ue=ue, uv=uv, index_kind=kind)


RAD = "rad"


def pl_integral(S, index, lo, hi, emin, emax):
    """fraction of a power law in [emin, emax] that lies in [lo, hi]"""
    l, h = S.ite(S.lt(lo, emin), emin, lo), S.ite(S.lt(emax, hi), emax, hi)
    if isinstance(index, int) and index == -1:
        f = S.log(h / l) / S.log(emax / emin)
    else:
        g = S.num(index) + 1
        f = (S.pow(l, g) - S.pow(h, g)) / (S.pow(emin, g) - S.pow(emax, g))
    return S.ite(S.lt(l, h), f, 0)


def cone_integral(S, lo, hi, vmin, vmax):
    """fraction of the solid angle of the view cone between the offsets lo and hi"""
    l, h = S.ite(S.lt(lo, vmin), vmin, lo), S.ite(S.lt(vmax, hi), vmax, hi)
    return S.ite(S.lt(l, h), (S.cos(l) - S.cos(h)) / (S.cos(vmin) - S.cos(vmax)), 0)


class _Info(Contract):
    target = T
    timeout = 8000

    def tol(self, S, info):
        return {} if S.symbolic else dict(scale=float(info["n_showers"]))

    def e_part(self, S, a, k):
        i = a["_info"]
        u = "TeV"
        eb = S.to(a["_ebins"], u)
        return pl_integral(S, i["spectral_index"], S.at(eb, k), S.at(eb, k + 1), S.num(i["energy_min"], u), S.num(i["energy_max"], u))

    def v_part(self, S, a, k):
        i = a["_info"]
        fb = S.to(a["_fbins"], RAD)
        return cone_integral(S, S.at(fb, k), S.at(fb, k + 1), S.num(i["viewcone_min"], RAD), S.num(i["viewcone_max"], RAD))


@contract
class ShowersPerEnergy(_Info):
    """power law share of every energy bin"""
    prop = "P10"
    covers = ("pyirf.simulations:SimulatedEventsInfo.calculate_n_showers_per_energy", "pyirf.simulations:_powerlaw_pdf_integral")

    def inputs(self, b):
        info, meta = info_inputs(b, cone=False)
        ub = b.unit("TeV", "bins")
        near = None if b.symbolic else [info["energy_min"].to_value(ub), info["energy_max"].to_value(ub)]
        e = b.edges("energy_bins", b.dim("m", 2), ub, pos=True)
        return dict(_info=info, _meta=meta, _ebins=e)

    def call(self, f, a):
        return f(**a["_info"]).calculate_n_showers_per_energy(a["_ebins"])

    def post(self, S, a, r):
        n = S.n(a["_ebins"]) - 1
        v = S.to(r, "") if S.has_unit(r) else r
        yield "shape", S.shape_is(v, n)
        yield "share", n, lambda k: S.eq(S.at(v, k), S.num(a["_info"]["n_showers"]) * self.e_part(S, a, k), **self.tol(S, a["_info"]))


@contract
class ShowersPerFov(_Info):
    """solid angle share of every offset bin"""
    prop = "P10"
    covers = ("pyirf.simulations:SimulatedEventsInfo.calculate_n_showers_per_fov", "pyirf.simulations:_viewcone_pdf_integral")

    def inputs(self, b):
        info, meta = info_inputs(b)
        f = b.edges("fov_bins", b.dim("k", 2), b.unit("deg", "fov"), nonneg=True)
        b.require(b.S.le(b.S.at(b.S.to(f, RAD), b.S.n(f) - 1), b.S.pi))
        return dict(_info=info, _meta=meta, _fbins=f)

    def call(self, f, a):
        return f(**a["_info"]).calculate_n_showers_per_fov(a["_fbins"])

    def post(self, S, a, r):
        n = S.n(a["_fbins"]) - 1
        v = S.to(r, "") if S.has_unit(r) else r
        yield "shape", S.shape_is(v, n)
        yield "share", n, lambda k: S.eq(S.at(v, k), S.num(a["_info"]["n_showers"]) * self.v_part(S, a, k), **self.tol(S, a["_info"]))


@contract
class NotDiffuse(_Info):
    """no field of view dependence without a view cone"""
    prop = "P10"
    samples = (20, 100)
    covers = ("pyirf.simulations:_viewcone_pdf_integral",)
    raises = [(ValueError, lambda S, a: S.true(True))]

    def inputs(self, b):
        info, meta = info_inputs(b, cone=False)
        info["viewcone_max"] = info["viewcone_min"]
        f = b.edges("fov_bins", b.dim("k", 2), b.unit("deg", "fov"), nonneg=True)
        return dict(_info=info, _meta=meta, _fbins=f)

    def call(self, f, a):
        return f(**a["_info"]).calculate_n_showers_per_fov(a["_fbins"])


@contract
class ShowersPerEnergyAndFov(_Info):
    prop = "P10"
    covers = ("pyirf.simulations:SimulatedEventsInfo.calculate_n_showers_per_energy_and_fov",)

    def inputs(self, b):
        info, meta = info_inputs(b)
        e = b.edges("energy_bins", b.dim("m", 2), b.unit("TeV", "bins"), pos=True)
        f = b.edges("fov_bins", b.dim("k", 2), b.unit("deg", "fov"), nonneg=True)
        b.require(b.S.le(b.S.at(b.S.to(f, RAD), b.S.n(f) - 1), b.S.pi))
        return dict(_info=info, _meta=meta, _ebins=e, _fbins=f)

    def call(self, f, a):
        i = f(**a["_info"])
        return i.calculate_n_showers_per_energy_and_fov(a["_ebins"], a["_fbins"]), i.calculate_n_showers_per_energy(a["_ebins"]), i.calculate_n_showers_per_fov(a["_fbins"])

    def post(self, S, a, r):
        n, k = S.n(a["_ebins"]) - 1, S.n(a["_fbins"]) - 1
        v, e, f = (S.to(x, "") if S.has_unit(x) else x for x in r)
        N = S.num(a["_info"]["n_showers"])
        yield "shape", S.shape_is(v, n, k)
        # against the contracts of the two marginals
        yield "product", (n, k), lambda i, j: S.eq(S.at(v, i, j) * N, S.at(e, i) * S.at(f, j), **({} if S.symbolic else dict(scale=float(N) ** 2)))
        if not S.symbolic:
            yield "share", (n, k), lambda i, j: S.eq(S.at(v, i, j), N * self.e_part(S, a, i) * self.v_part(S, a, j), **self.tol(S, a["_info"]))


@contract
class ShowersPolar(_Info):
    prop = "P10"
    samples = (60, 600)
    covers = ("pyirf.simulations:SimulatedEventsInfo.calculate_n_showers_3d_polar",)

    def inputs(self, b):
        info, meta = info_inputs(b)
        e = b.edges("energy_bins", b.dim("m", 2), b.unit("TeV", "bins"), pos=True)
        f = b.edges("fov_bins", b.dim("k", 2), b.unit("deg", "fov"), nonneg=True)
        b.require(b.S.le(b.S.at(b.S.to(f, RAD), b.S.n(f) - 1), b.S.pi))
        p = b.edges("angle_bins", b.dim("l", 2), b.unit("deg", "angle"), nonneg=True)
        return dict(_info=info, _meta=meta, _ebins=e, _fbins=f, _pbins=p)

    def call(self, f, a):
        i = f(**a["_info"])
        return (i.calculate_n_showers_3d_polar(a["_ebins"], a["_fbins"], a["_pbins"]),
                i.calculate_n_showers_per_energy_and_fov(a["_ebins"], a["_fbins"]))

    def post(self, S, a, r):
        n, k, l = (S.n(a[x]) - 1 for x in ("_ebins", "_fbins", "_pbins"))
        v, ef = (S.to(x, "") if S.has_unit(x) else x for x in r)
        pb = S.to(a["_pbins"], RAD)
        N = S.num(a["_info"]["n_showers"])
        part = lambda q: (S.at(pb, q + 1) - S.at(pb, q)) / (2 * S.pi)
        yield "shape", S.shape_is(v, n, k, l)
        # against the contract of the radial profile
        yield "share of angle", (n, k, l), lambda i, j, q: S.eq(S.at(v, i, j, q), S.at(ef, i, j) * part(q), **self.tol(S, a["_info"]))
        if not S.symbolic:
            yield "share", (n, k, l), lambda i, j, q: S.eq(S.at(v, i, j, q), N * self.e_part(S, a, i) * self.v_part(S, a, j) * part(q), **self.tol(S, a["_info"]))


def overlap(S, lon, lat, i, j, N, vmin, vmax, band=True):
    """fraction of the N x N sub-pixel centres of a lon / lat bin inside the view cone (radian)"""
    l0, dl = S.at(lon, i), S.at(lon, i + 1) - S.at(lon, i)
    b0, db = S.at(lat, j), S.at(lat, j + 1) - S.at(lat, j)

    def inside(p, q):
        s = S.angsep(l0 + dl * (2 * p + 1) / (2 * N), b0 + db * (2 * q + 1) / (2 * N), 0, 0)
        return S.And(S.le(vmin, s), S.le(s, vmax))
    frac = S.count((N, N), inside) / (N * N)
    if not band:
        return frac
    c = S.angsep(l0 + dl / 2, b0 + db / 2, 0, 0)
    rad = S.sqrt(dl * dl + db * db) / 2
    edge = lambda v: S.And(S.lt(c, v + rad), S.lt(v - rad, c))
    return S.ite(S.Or(edge(vmin), edge(vmax)), frac, S.ite(S.And(S.le(vmin, c), S.le(c, vmax)), 1, 0))


@contract
class ShowersLonLat(_Info):
    prop = "P10"
    samples = (50, 500)
    limit = 60
    covers = ("pyirf.simulations:SimulatedEventsInfo.calculate_n_showers_3d_lonlat", "pyirf.simulations:_fov_lonlat_grid_overlap",
              "pyirf.utils:rectangle_solid_angle", "pyirf.utils:cone_solid_angle")

    def inputs(self, b):
        info, meta = info_inputs(b)
        e = b.edges("energy_bins", b.dim("m", 2, 4), b.unit("TeV", "bins"), pos=True)
        lon = b.edges("lon_bins", b.dim("k", 2, 5), b.unit("deg", "lon"))
        lat = b.edges("lat_bins", b.dim("l", 2, 5), b.unit("deg", "lat"))
        N = b.dim("subpixels", 1, 6)
        b.require(b.S.And(b.S.lt(-b.S.pi / 2, b.S.at(b.S.to(lat, RAD), 0)), b.S.lt(b.S.at(b.S.to(lat, RAD), b.S.n(lat) - 1), b.S.pi / 2)))
        return dict(_info=info, _meta=meta, _ebins=e, _lon=lon, _lat=lat, _N=N)

    def call(self, f, a):
        return f(**a["_info"]).calculate_n_showers_3d_lonlat(a["_ebins"], a["_lon"], a["_lat"], subpixels=a["_N"])

    def post(self, S, a, r):
        info = a["_info"]
        n, k, l = (S.n(a[x]) - 1 for x in ("_ebins", "_lon", "_lat"))
        v = S.to(r, "") if S.has_unit(r) else r
        lon, lat = S.to(a["_lon"], RAD), S.to(a["_lat"], RAD)
        vmin, vmax = S.num(info["viewcone_min"], RAD), S.num(info["viewcone_max"], RAD)
        yield "shape", S.shape_is(v, n, k, l)

        def want(i, j, q):
            om = (S.at(lon, j + 1) - S.at(lon, j)) * (S.sin(S.at(lat, q + 1)) - S.sin(S.at(lat, q)))
            cone = 2 * S.pi * (S.cos(vmin) - S.cos(vmax))
            return S.num(info["n_showers"]) * self.e_part(S, a, i) * om / cone * overlap(S, lon, lat, j, q, a["_N"], vmin, vmax, band=S.symbolic)
        yield "share", (n, k, l), lambda i, j, q: S.eq(S.at(v, i, j, q), want(i, j, q), **self.tol(S, info))


@contract
class ShowersLonLatShare(ShowersLonLat):
    """density over the viewcone times solid angle of the bin, times the part of the bin inside of the
    viewcone, which enters as a function of viewcone, bins and subpixels (the contract above); the
    showers of an energy bin are those of the contract of calculate_n_showers_per_energy"""
    limit = 120

    def _callees():
        from engine.opaque import callee
        from engine.arrays import asarr, ax
        name = "pyirf.simulations:_fov_lonlat_grid_overlap"
        less = lambda x: ax(asarr(x).axes[0].size - 1)
        return {name: callee(name, lambda v, new: new("overlap", (less(v["bin_edges_lon"]), less(v["bin_edges_lat"])), nonneg=True))}
    replace = _callees()
    samples = (20, 100)

    def call(self, f, a):
        i = f(**a["_info"])
        r = i.calculate_n_showers_3d_lonlat(a["_ebins"], a["_lon"], a["_lat"], subpixels=a["_N"])
        self.energies = i.calculate_n_showers_per_energy(a["_ebins"])
        self.overlap = self.get("pyirf.simulations:_fov_lonlat_grid_overlap")(i, a["_lon"], a["_lat"], subpixels=a["_N"])
        return r

    def post(self, S, a, r):
        info = a["_info"]
        n, k, l = (S.n(a[x]) - 1 for x in ("_ebins", "_lon", "_lat"))
        v = S.to(r, "") if S.has_unit(r) else r
        lon, lat = S.to(a["_lon"], RAD), S.to(a["_lat"], RAD)
        vmin, vmax = S.num(info["viewcone_min"], RAD), S.num(info["viewcone_max"], RAD)
        yield "shape", S.shape_is(v, n, k, l)
        energies = S.to(self.energies, "") if S.has_unit(self.energies) else self.energies
        part = S.to(self.overlap, "") if S.has_unit(self.overlap) else self.overlap

        def want(i, j, q):
            om = (S.at(lon, j + 1) - S.at(lon, j)) * (S.sin(S.at(lat, q + 1)) - S.sin(S.at(lat, q)))
            return S.at(energies, i) * om / (2 * S.pi * (S.cos(vmin) - S.cos(vmax))) * S.at(part, j, q)
        yield "share", (n, k, l), lambda i, j, q: S.eq(S.at(v, i, j, q), want(i, j, q), **self.tol(S, info))


@contract
class BadIndex(_Info):
    """spectra harder than -1 are refused"""
    prop = "P10"
    samples = (30, 200)
    raises = [(ValueError, lambda S, a: S.lt(-1, S.num(a["spectral_index"])))]

    def inputs(self, b):
        info, meta = info_inputs(b, cone=False)
        info["spectral_index"] = b.scalar("any_index", gen=lambda r: r.choice([-1.0, -2.0, -0.999999, 0.0, r.uniform(-3, 1)]))
        return info
