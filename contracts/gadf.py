"""Contracts of pyirf/io/gadf.py: FITS tables in the GADF format"""
from engine.harness import Contract, contract
import io

M = "pyirf.io.gadf"


class Hdu:
    """columns and header of the exported table; generated cases look at what comes back from a
    FITS file"""

    def __init__(self, S, h):
        self.S = S
        if S.symbolic:
            self.cols, self.header = h.data.cols, h.header
            self.name = h.name
            return
        import astropy.units as u
        from astropy.io import fits
        buf = io.BytesIO()
        fits.HDUList([fits.PrimaryHDU(), h]).writeto(buf)
        buf.seek(0)
        with fits.open(buf) as f:
            t = f[1]
            self.name = t.name
            self.header = t.header.copy()
            self.cols = {c.name: (t.data[c.name].astype(float) * u.Unit(c.unit) if c.unit else t.data[c.name].astype(float)) for c in t.columns}


class _Gadf(Contract):
    prop = "P23"
    samples = (25, 200)
    cards = {}
    axes = ()        # (argument, unit, column prefix) in the order of the argument's axes
    data = None      # (argument, unit, column)
    fortran = None   # order of the axes in the format (indices into axes), fastest first

    def inputs(self, b):
        a, d, dims = {}, {}, []
        for arg, un, col in self.axes:
            n = b.dim("n_" + col, 1, None if b.symbolic else 4)
            dims.append(n)
            e = b.edges(arg, n + 1, b.unit(un, arg) if un else None, nonneg=col != "DETX" and col != "DETY")
            a[arg] = e
        arg, un, col = self.data
        v = b.quantity(arg, tuple(dims), b.unit(un, "data"), nan=True) if un else b.array(arg, tuple(dims), nan=True)
        if not un and b.choice("data as quantity", [False, True]):
            v = b.const(v, "")
        kw = self.options(b)
        cards = b.choice("cards", [{}, {"TELESCOP": "CTA", "INSTRUME": "X"}, {"OBS_ID": 3, "HDUCLAS3": "OTHER"}])
        more = {"extname": "NAME"} if b.choice("extname", [False, True]) else {}
        return dict(_a={arg: v, **a}, _kw={**kw, **more}, _cards=cards, _dims=tuple(dims), _opt=kw)

    def options(self, b):
        return {"point_like": b.choice("point_like", [True, False])} if b.choice("explicit", [True, False]) else {}

    def call(self, f, a):
        first = f(**a["_a"], **a["_kw"], **a["_cards"])
        # no trace of it in the next one
        return first, f(**a["_a"], **a["_kw"])

    def post(self, S, a, r):
        one, two = (Hdu(S, h) for h in r)
        yield from self.check(S, a, one, a["_cards"])
        for n, c in self.check(S, a, two, {}, False):
            yield "next: " + n, c

    def check(self, S, a, h, cards, values=True):
        hdr = dict(self.fixed(a), HDUCLASS="GADF", HDUVERS="0.2", HDUCLAS1="RESPONSE", **self.cards)
        cols = [c for _, _, p in self.axes for c in (p + "_LO", p + "_HI")] + [self.data[2]]
        yield "columns", S.true(sorted(h.cols) == sorted(cols))
        names = list(h.cols)
        hdr[f"CREF{names.index(self.data[2]) + 1}"] = "(" + ",".join(f"{self.axes[i][2]}_LO:{self.axes[i][2]}_HI" for i in self.fortran) + ")"
        hdr.update(cards)
        for k, v in hdr.items():
            yield "header " + k, S.true(k in h.header and h.header[k] == v)
        for k in ("TELESCOP", "INSTRUME", "OBS_ID"):
            if k not in cards:
                yield "no header " + k, S.true(k not in h.header)
        yield "name", S.true(h.name == a["_kw"].get("extname", self.extname))
        if not values:
            return
        for arg, un, p in self.axes:
            e = S.to(a["_a"][arg], un)
            n = S.n(a["_a"][arg]) - 1
            for s, o in (("_LO", 0), ("_HI", 1)):
                c = h.cols[p + s]
                yield f"unit of {p}{s}", S.unit_is(c, un) if un else S.true(not S.has_unit(c))
                c = S.to(c, un)
                yield f"shape of {p}{s}", S.shape_is(c, 1, n)
                yield p + s, n, lambda i, c=c, o=o, e=e: S.eq(S.at(c, 0, i), S.at(e, i + o))
        arg, un, col = self.data
        c, v = h.cols[col], a["_a"][arg]
        if un:
            yield "unit of the data", S.unit_is(c, un)
            c, v = S.to(c, un), S.to(v, un)
        else:
            c, v = (S.to(x, "") if S.has_unit(x) else x for x in (c, v))
        order = [*reversed(self.fortran)]
        yield "shape of the data", S.shape_is(c, 1, *[a["_dims"][i] for i in order])
        # relative units of very different size
        eq = (lambda x, y: S.eq(x, y)) if S.symbolic else (lambda x, y: S.eq(x, y, rtol=1e-9))
        same = lambda x, y: S.Or(S.And(S.isnan(x), S.isnan(y)), S.And(S.Not(S.isnan(x)), S.Not(S.isnan(y)), eq(x, y)))
        yield "data", a["_dims"], lambda *i: same(S.at(c, 0, *[i[q] for q in order]), S.at(v, *i))

    def fixed(self, a):
        return {"HDUCLAS3": "POINT-LIKE" if a["_opt"].get("point_like", True) else "FULL-ENCLOSURE"}


ENERGY, OFFSET = ("true_energy_bins", "TeV", "ENERG"), ("fov_offset_bins", "deg", "THETA")
RECO = ("reco_energy_bins", "TeV", "ENERG")


@contract
class Aeff2D(_Gadf):
    target = M + ":create_aeff2d_hdu"
    axes, data, fortran, extname = (ENERGY, OFFSET), ("effective_area", "m2", "EFFAREA"), (0, 1), "EFFECTIVE AREA"
    cards = {"HDUCLAS2": "EFF_AREA", "HDUCLAS4": "AEFF_2D"}


class _Full(_Gadf):
    def options(self, b):
        return {}

    def fixed(self, a):
        return {"HDUCLAS3": "FULL-ENCLOSURE"}


@contract
class PsfTableHdu(_Full):
    target = M + ":create_psf_table_hdu"
    axes, data, fortran, extname = (ENERGY, OFFSET, ("source_offset_bins", "deg", "RAD")), ("psf", "sr-1", "RPSF"), (0, 1, 2), "PSF"
    cards = {"HDUCLAS2": "PSF", "HDUCLAS4": "PSF_TABLE"}


@contract
class EnergyDispersionHdu(_Gadf):
    target = M + ":create_energy_dispersion_hdu"
    axes, data, fortran, extname = (ENERGY, ("migration_bins", None, "MIGRA"), OFFSET), ("energy_dispersion", None, "MATRIX"), (0, 1, 2), "EDISP"
    cards = {"HDUCLAS2": "EDISP", "HDUCLAS4": "EDISP_2D"}


@contract
class Background2DHdu(_Full):
    target = M + ":create_background_2d_hdu"
    axes, data, fortran, extname = (RECO, OFFSET), ("background_2d", "MeV-1 s-1 sr-1", "BKG"), (0, 1), "BACKGROUND"
    cards = {"HDUCLAS2": "BKG", "HDUCLAS4": "BKG_2D"}


@contract
class Background3DHdu(_Full):
    """also: the alignment of the field of view is one of the two the format knows"""
    target = M + ":create_background_3d_hdu"
    axes, data, fortran, extname = (RECO, ("fov_lon_bins", "deg", "DETX"), ("fov_lat_bins", "deg", "DETY")), ("background_3d", "MeV-1 s-1 sr-1", "BKG"), (0, 1, 2), "BACKGROUND"
    cards = {"HDUCLAS2": "BKG", "HDUCLAS4": "BKG_3D"}

    def options(self, b):
        v = b.choice("alignment", [None, "ALTAZ", "RADEC", "J2000"])
        return {} if v is None else {"alignment": v}

    def fixed(self, a):
        return {"HDUCLAS3": "FULL-ENCLOSURE", "FOVALIGN": a["_opt"].get("alignment", "ALTAZ")}

    raises = [(ValueError, lambda S, a: S.true(a["_opt"].get("alignment") == "J2000"))]


@contract
class RadMaxHdu(_Gadf):
    target = M + ":create_rad_max_hdu"
    axes, data, fortran, extname = (RECO, OFFSET), ("rad_max", "deg", "RAD_MAX"), (0, 1), "RAD_MAX"
    cards = {"HDUCLAS2": "RAD_MAX", "HDUCLAS4": "RAD_MAX_2D"}

    def fixed(self, a):
        return {"HDUCLAS3": "POINT-LIKE"}
