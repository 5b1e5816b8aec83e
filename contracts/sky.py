"""Contracts of pyirf/coordinates.py and of the sky geometry / solid angles / input checks in pyirf/utils.py"""
from engine.harness import Contract, contract
import math

U = "pyirf.utils"
C = "pyirf.coordinates"


def sky(b, name, dims=()):
    """a direction (lon, lat) in arbitrary angular units"""
    lon = b.quantity(f"{name}_lon", dims, b.unit("deg", f"{name}_lon"), gen=lambda r: r.choice([0.0, r.uniform(-7, 7), r.uniform(0, 0.05)]))
    lat = b.quantity(f"{name}_lat", dims, b.unit("deg", f"{name}_lat"), gen=lambda r: r.choice([0.0, r.uniform(-1.5, 1.5), r.uniform(0, 0.05)]))
    n = b.S.n(lat) if dims else None
    ok = lambda x: b.S.And(b.S.le(-b.S.pi / 2, x), b.S.le(x, b.S.pi / 2))
    latr = b.S.to(lat, "rad")
    if dims:
        b.require_all(list(dims), lambda *i: ok(b.S.at(latr, *i)))
    else:
        b.require(ok(b.S.num(latr)))
    return lon, lat


def rads(S, pair, *i):
    return tuple(S.at(S.to(x, "rad"), *i) if i else S.num(x, "rad") for x in pair)


# arcsin / arctan of values near the poles lose digits
def tol(S, **k):
    return {} if S.symbolic else dict(dict(scale=1.0, rtol=1e-7), **k)


def wrapped_eq(S, a, b):
    """equal angles in [0, 2 pi) (0 and 2 pi are the same direction)"""
    if S.symbolic:
        return S.eq(a, b)
    d = (a - b) % (2 * math.pi)
    return min(d, 2 * math.pi - d) < 1e-6


@contract
class Theta(Contract):
    """distance between the assumed source and the reconstructed direction of every event, in degree"""
    prop = "P07"
    target = U + ":calculate_theta"

    def inputs(self, b):
        n = b.dim("n", 0)
        src = sky(b, "source")
        ev = sky(b, "reco", (n,))
        return dict(events=b.table({"reco_az": ev[0], "reco_alt": ev[1]}), assumed_source_az=src[0], assumed_source_alt=src[1], _ev=ev)

    def post(self, S, a, r):
        n = S.n(a["_ev"][0])
        yield "unit", S.unit_is(r, "deg")
        yield "shape", S.shape_is(r, n)
        src = rads(S, (a["assumed_source_az"], a["assumed_source_alt"]))
        v = S.to(r, "rad")
        yield "separation", n, lambda i: S.eq(S.at(v, i), S.angsep(*src, *rads(S, a["_ev"], i)), **tol(S))


@contract
class SourceOffset(Contract):
    """distance between pointing and true / reconstructed direction"""
    prop = "P07"
    target = U + ":calculate_source_fov_offset"

    def inputs(self, b):
        n = b.dim("n", 0)
        cols, pairs = event_columns(b, n)
        p = b.choice("prefix", ["true", "reco"])
        return dict(events=b.table(cols), prefix=p, _p=pairs)

    def post(self, S, a, r):
        p = a["_p"]
        n = S.n(p["pointing"][0])
        yield "unit", S.unit_is(r, "deg")
        yield "shape", S.shape_is(r, n)
        v = S.to(r, "rad")
        yield "separation", n, lambda i: S.eq(S.at(v, i), S.angsep(*rads(S, p[a["prefix"]], i), *rads(S, p["pointing"], i)), **tol(S))


def event_columns(b, n):
    pairs = {k: sky(b, k, (n,)) for k in ("true", "reco", "pointing")}
    cols = {}
    for k, (lon, lat) in pairs.items():
        cols[k + "_az"], cols[k + "_alt"] = lon, lat
    return cols, pairs


@contract
class SourceOffsetDefault(SourceOffset):
    """without a prefix the true direction counts"""
    samples = (20, 100)

    def inputs(self, b):
        n = b.dim("n", 0)
        cols, pairs = event_columns(b, n)
        return dict(events=b.table(cols), _p=pairs, _prefix="true")

    def post(self, S, a, r):
        yield from super().post(S, dict(a, prefix="true"), r)


@contract
class SourcePositionAngle(Contract):
    """GADF azimuth in the field of view: opposite sense to the position angle, in [0, 360) deg"""
    prop = "P07"
    target = U + ":calculate_source_fov_position_angle"
    covers = (C + ":gadf_fov_coords_theta_phi",)

    inputs = SourceOffset.inputs

    def post(self, S, a, r):
        p = a["_p"]
        n = S.n(p["pointing"][0])
        yield "unit", S.unit_is(r, "deg")
        yield "shape", S.shape_is(r, n)
        v = S.to(r, "rad")
        yield "range", n, lambda i: S.And(S.le(0, S.at(v, i)), S.approx_le(S.at(v, i), 2 * S.pi))
        pa = lambda i: S.posang(*rads(S, p["pointing"], i), *rads(S, p[a["prefix"]], i))
        yield "angle", n, lambda i: S.Or(degenerate(S, p["pointing"], p[a["prefix"]], i), wrapped_eq(S, S.at(v, i), S.ite(S.lt(0, pa(i)), 2 * S.pi - pa(i), 0)))


def degenerate(S, p, q, i):
    """the position angle of a point very close to the pointing (or of a pole) is numerically meaningless"""
    if S.symbolic:
        return S.true(False) if hasattr(S, "true") else False
    s = S.angsep(*rads(S, p, i), *rads(S, q, i))
    return s < 1e-6 or s > math.pi - 1e-6 or abs(abs(rads(S, p, i)[1]) - math.pi / 2) < 1e-6 or abs(abs(rads(S, q, i)[1]) - math.pi / 2) < 1e-6


@contract
class ThetaPhi(Contract):
    prop = "P07"
    target = C + ":gadf_fov_coords_theta_phi"

    def inputs(self, b):
        n = b.dim("n", 0)
        t = sky(b, "target", (n,))
        p = sky(b, "pointing")
        return dict(lon=t[0], lat=t[1], pointing_lon=p[0], pointing_lat=p[1])

    def post(self, S, a, r):
        theta, phi = r
        n = S.n(a["lon"])
        p = rads(S, (a["pointing_lon"], a["pointing_lat"]))
        t = lambda i: rads(S, (a["lon"], a["lat"]), i)
        yield "units", S.And(S.unit_is(theta, "deg"), S.unit_is(phi, "deg"))
        yield "shape", S.And(S.shape_is(theta, n), S.shape_is(phi, n))
        th, ph = S.to(theta, "rad"), S.to(phi, "rad")
        yield "theta", n, lambda i: S.eq(S.at(th, i), S.angsep(*p, *t(i)), **tol(S))
        yield "range", n, lambda i: S.And(S.le(0, S.at(ph, i)), S.approx_le(S.at(ph, i), 2 * S.pi))
        pa = lambda i: S.posang(*p, *t(i))

        def deg(i):
            if S.symbolic:
                return S.true(False)
            s = S.angsep(*p, *t(i))
            return s < 1e-6 or s > math.pi - 1e-6 or abs(abs(p[1]) - math.pi / 2) < 1e-6 or abs(abs(t(i)[1]) - math.pi / 2) < 1e-6
        yield "phi", n, lambda i: S.Or(deg(i), wrapped_eq(S, S.at(ph, i), S.ite(S.lt(0, pa(i)), 2 * S.pi - pa(i), 0)))


@contract
class LonLat(Contract):
    """offset frame around the pointing with the longitude axis reversed"""
    prop = "P07"
    target = C + ":gadf_fov_coords_lon_lat"

    inputs = ThetaPhi.inputs

    def post(self, S, a, r):
        lon, lat = r
        n = S.n(a["lon"])
        p = rads(S, (a["pointing_lon"], a["pointing_lat"]))
        t = lambda i: rads(S, (a["lon"], a["lat"]), i)
        yield "shape", S.And(S.shape_is(lon, n), S.shape_is(lat, n))
        lo, la = S.to(lon, "rad"), S.to(lat, "rad")
        close = lambda i: False if S.symbolic else math.cos(S.offlat(*p, *t(i))) < 1e-5
        yield "longitude", n, lambda i: S.Or(close(i), lon_eq(S, S.at(lo, i), -S.offlon(*p, *t(i))))
        yield "latitude", n, lambda i: S.eq(S.at(la, i), S.offlat(*p, *t(i)), **tol(S))


def lon_eq(S, a, b):
    if S.symbolic:
        return S.eq(a, b)
    d = (a - b) % (2 * math.pi)
    return min(d, 2 * math.pi - d) < 1e-6 and -math.pi - 1e-9 <= a <= math.pi + 1e-9


@contract
class SourceLonLat(Contract):
    prop = "P07"
    target = U + ":calculate_source_fov_lonlat"
    covers = (C + ":gadf_fov_coords_lon_lat",)

    inputs = SourceOffset.inputs

    def post(self, S, a, r):
        lon, lat = r
        p = a["_p"]
        n = S.n(p["pointing"][0])
        o = lambda i: rads(S, p["pointing"], i) + rads(S, p[a["prefix"]], i)
        yield "unit", S.And(S.unit_is(lon, "deg"), S.unit_is(lat, "deg"))
        yield "shape", S.And(S.shape_is(lon, n), S.shape_is(lat, n))
        lo, la = S.to(lon, "rad"), S.to(lat, "rad")
        close = lambda i: False if S.symbolic else math.cos(S.offlat(*o(i))) < 1e-5
        yield "longitude", n, lambda i: S.Or(close(i), lon_eq(S, S.at(lo, i), -S.offlon(*o(i))))
        yield "latitude", n, lambda i: S.eq(S.at(la, i), S.offlat(*o(i)), **tol(S))


# ---------------------------------------------------------------- solid angles
@contract
class ConeSolidAngle(Contract):
    """2 pi (1 - cos)"""
    prop = "P08"
    target = U + ":cone_solid_angle"

    def inputs(self, b):
        un = b.unit("deg", "angle")
        if b.choice("shape", ["array", "scalar"]) == "array":
            return dict(angle=b.quantity("angle", (b.dim("n", 0),), un, nonneg=True, gen=lambda r: r.uniform(0, 3)))
        return dict(angle=b.quantity("angle", (), un, nonneg=True, gen=lambda r: r.uniform(0, 3)))

    def post(self, S, a, r):
        x = S.to(a["angle"], "rad")
        yield "unit", S.unit_like(r, "sr")
        v = S.to(r, "sr")
        tol = {} if S.symbolic else dict(scale=1.0)
        if S.is_scalar(a["angle"]):
            yield "value", S.eq(S.num(v), 2 * S.pi * (1 - S.cos(S.num(x))), **tol)
        else:
            yield "shape", S.shape_is(r, S.n(a["angle"]))
            yield "value", S.n(a["angle"]), lambda i: S.eq(S.at(v, i), 2 * S.pi * (1 - S.cos(S.at(x, i))), **tol)


@contract
class RectangleSolidAngle(Contract):
    """(lon_high - lon_low) (sin lat_high - sin lat_low)"""
    prop = "P08"
    target = U + ":rectangle_solid_angle"

    def inputs(self, b):
        n = b.dim("n", 0)
        return {k: b.quantity(k, (n,), b.unit("deg", k), gen=lambda r: r.uniform(-1.5, 1.5)) for k in ("lon_low", "lon_high", "lat_low", "lat_high")}

    def post(self, S, a, r):
        n = S.n(a["lon_low"])
        x = {k: S.to(v, "rad") for k, v in a.items()}
        yield "unit", S.unit_like(r, "sr")
        yield "shape", S.shape_is(r, n)
        v = S.to(r, "sr")
        tol = {} if S.symbolic else dict(scale=1.0)
        yield "value", n, lambda i: S.eq(S.at(v, i), (S.at(x["lon_high"], i) - S.at(x["lon_low"], i)) * (S.sin(S.at(x["lat_high"], i)) - S.sin(S.at(x["lat_low"], i))), **tol)


# ---------------------------------------------------------------- input checks
@contract
class IsScalar(Contract):
    """numbers and zero-dimensional quantities are scalar, arrays are not"""
    prop = "P08"
    target = U + ":is_scalar"
    samples = (30, 200)

    def inputs(self, b):
        k = b.choice("kind", ["number", "scalar quantity", "array", "quantity", "empty", "2d"])
        un = b.unit("TeV", "x")
        v = {"number": lambda: b.scalar("x"), "scalar quantity": lambda: b.quantity("q", (), un), "array": lambda: b.array("a", (b.dim("n", 0),)),
             "quantity": lambda: b.quantity("qa", (b.dim("n", 0),), un), "empty": lambda: b.array("e", (b.dim("n", 0, 1),)),
             "2d": lambda: b.array("m", (b.dim("n", 0), b.dim("k", 1, 3)))}[k]()
        return dict(val=v, _scalar=k in ("number", "scalar quantity"))

    def post(self, S, a, r):
        yield "verdict", S.Iff(S.truth(r), S.true(a["_scalar"]))


@contract
class CheckHistograms(Contract):
    """histograms of different binning are refused, of equal binning accepted"""
    prop = "P08"
    target = U + ":check_histograms"

    def inputs(self, b):
        n = b.dim("n", 1)
        ue = b.unit("TeV", "e")
        key = b.choice("key", ["reco_energy", "true_energy"])
        t = []
        for s in ("a", "b"):
            cols = {}
            for k in ("low", "center", "high"):
                cols[f"{key}_{k}"] = b.quantity(f"{k}_{s}", (n,), ue, gen=lambda r: float(r.choice([1, 1, 1, 1, 2])))
            t.append(b.table(cols))
        return dict(hist1=t[0], hist2=t[1], key=key, _n=n)

    def _differ(S, a):
        k = a["key"]
        e = lambda t, c, i: S.at(S.col(a[t], f"{k}_{c}"), i)
        return S.any([a["_n"]], lambda i: S.Or(*[S.Not(S.eq(e("hist1", c, i), e("hist2", c, i))) for c in ("low", "center", "high")]))

    raises = [(ValueError, _differ)]


@contract
class CheckTable(Contract):
    """accepted iff every required column is there with a unit of the required kind"""
    prop = "P08"
    target = U + ":check_table"
    samples = (60, 400)

    def inputs(self, b):
        n = b.dim("n", 0)
        have = {}
        kinds = {}
        for c, bases in (("energy", ["TeV", "m", None]), ("angle", ["deg", "TeV", None])):
            k = b.choice(c, ["absent"] + bases)
            kinds[c] = k
            if k == "absent":
                continue
            have[c] = b.array(c, (n,)) if k is None else b.quantity(c, (n,), b.unit(k, c))
        have["gh_score"] = b.array("gh_score", (n,))
        mode = b.choice("mode", ["columns", "units"])
        return dict(_t=b.table(have), _kinds=kinds, _mode=mode)

    def call(self, f, a):
        u = self.get("pyirf.utils:u")
        if a["_mode"] == "columns":
            return f(a["_t"], required_columns={"energy", "angle", "gh_score"})
        return f(a["_t"], required_units={"energy": u.TeV, "angle": u.deg})

    def _missing(S, a):
        return S.true("absent" in a["_kinds"].values() and (a["_mode"] == "columns" or (a["_kinds"]["energy"] == "absent" or a["_kinds"]["energy"] == "TeV")))

    def _wrong(S, a):
        k = a["_kinds"]
        bad = k["energy"] not in ("TeV", "absent") or (k["energy"] == "TeV" and k["angle"] not in ("deg", "absent"))
        return S.true(a["_mode"] == "units" and bad)

    raises = [("MissingColumns", _missing), ("WrongColumnUnit", _wrong)]

    def post(self, S, a, r):
        yield "accepted", S.true(r is None)
