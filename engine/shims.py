"""The library modules seen by the code under verification."""
import math
import types
from fractions import Fraction

from .terms import *
from . import terms as T
from . import arrays as A
from . import logic as L
from . import npshim, units, tables, loops, geometry
from .arrays import Arr, Num, num, asarr, arr0, ax, bc_reader, broadcast, unary, n_ite, n_lt, n_le
from .ctx import ctx
from .loader import Missing
from .units import Quantity, mkq, plain, to_unit, unit_of


# ------------------------------------------------------------------ scipy.stats.norm
NCDF = T.Fn("Phi", 1, "R", pos=True, argsorts=("R",))
NCDF.axioms.append(lambda x: [Lt(app(NCDF, x), 1), Implies(Eq(x, 0), Eq(app(NCDF, x), P(Fraction(1, 2)))),
                              Implies(Lt(0, x), Lt(P(Fraction(1, 2)), app(NCDF, x))), Implies(Lt(x, 0), Lt(app(NCDF, x), P(Fraction(1, 2)))),
                              Implies(Le(x, -1), Lt(app(NCDF, x), P(Fraction(1587, 10000)))), Implies(Le(1, x), Lt(P(Fraction(8413, 10000)), app(NCDF, x)))])
NCDF.pair_axioms.append(lambda a, b: [Implies(Lt(a[0], b[0]), Lt(app(NCDF, a[0]), app(NCDF, b[0]))),
                                      Implies(Eq(a[0], -b[0]), Eq(app(NCDF, a[0]) + app(NCDF, b[0]), 1))])


def t_ncdf(p):
    if split_ind(p) is not None:
        return A.app_cases(t_ncdf, p)
    q, s = A.canon_sign(p) if p.m else (p, 1)
    return app(NCDF, q) if s > 0 else ONE - app(NCDF, q)


T.REBUILD["Phi"] = t_ncdf
A.CLOSED["Phi"] = lambda x: 0.5 * math.erfc(-x / math.sqrt(2))


class _norm:
    @staticmethod
    def cdf(x, loc=0, scale=1):
        x = (asarr(x) - loc) / scale
        return unary(plain(x), lambda e: Num(t_ncdf(num(e).p), num(e).nan), "f")

    @staticmethod
    def sf(x, loc=0, scale=1):
        return 1 - _norm.cdf(x, loc, scale)

    @staticmethod
    def ppf(q, loc=0, scale=1):
        raise Unsupported("norm.ppf")

    def __call__(self, loc=0, scale=1):
        return _frozen(loc, scale)

    def __getattr__(self, n):
        return Missing(f"scipy.stats.norm.{n}")


class _frozen:
    def __init__(self, loc, scale):
        self.loc, self.scale = loc, scale

    def cdf(self, x):
        return _norm.cdf(x, self.loc, self.scale)

    def sf(self, x):
        return _norm.sf(x, self.loc, self.scale)


# ------------------------------------------------------------------ scipy.interpolate.interp1d
class interp1d:
    """piecewise interpolation through the nodes.

    linear: exact formula (the ``interp`` aggregate).
    quadratic: an opaque function of the query with the node property f(x_i) = y_i."""

    def __init__(self, x, y, kind="linear", axis=-1, copy=True, bounds_error=None, fill_value=float("nan"), assume_sorted=False):
        x, y = asarr(x), asarr(y)
        self.x, self.y = plain(x), plain(y)
        self.kind, self.axis = kind, axis % self.y.ndim
        self.bounds_error, self.fill = bounds_error, fill_value
        if self.x.ndim != 1:
            raise ValueError("the x array must have exactly one dimension.")
        if A.axes_equal(self.x.axes[0], self.y.axes[self.axis]) is not True:
            if not ctx().fork(Eq(self.x.axes[0].size, self.y.axes[self.axis].size)):
                raise ValueError("x and y arrays must be equal in length along interpolation axis.")
        if kind not in ("linear", "quadratic"):
            raise Unsupported(f"interp1d kind {kind!r}")
        need = 2 if kind == "linear" else 3
        n = self.x.axes[0].size
        self.masked = self.x.axes[0].guard is not None
        if not (self.masked and need == 2 and self._two_selected()) and not ctx().entails(Le(need, n)) and not ctx().fork(Le(need, n)):
            raise ValueError("not enough points")
        if self.masked:
            self.nowhere, self.uid = False, None
            self._selected_nodes()
            return
        self.nowhere = self._nowhere(n)
        s = TRUE if self.nowhere else L.ball([n - 1], lambda j: n_lt(num(self.x.reader()(((j,),))), num(self.x.reader()(((j + 1,),)))))
        if not ctx().entails(s, 4000):
            # interp1d sorts unsorted input
            if not ctx().fork(s):
                raise Unsupported("interp1d with abscissae that are not increasing")
        if isinstance(fill_value, str) and fill_value != "extrapolate":
            raise ValueError("bad fill_value")
        if bounds_error is None:
            self.bounds_error = not (isinstance(fill_value, (str, tuple)))
        self.uid = None

    def _two_selected(self):
        """two indices the selection speaks about that are selected"""
        a = self.x.axes[0]
        j = fresh("j")
        g = a.cond((j,))
        at = [Poly.atom(x) for x in L.walk_atoms([g]) if x.kind == "app" and x.fn.agg is not None and x.fn.agg.kind == "argmin" and j.atoms()[0] not in T.free_locals(x)]
        has = lambda t: And(Le(0, t), Lt(t, a.base[0]), a.cond((t,)))
        return len(a.base) == 1 and any(ctx().entails(And(has(t), has(u), Lt(t, u))) for t in at for u in at if t is not u)

    def _selected_nodes(self):
        """nodes selected from a longer array"""
        a, b = self.x.axes[0], self.y.axes[0]
        if self.kind != "linear" or self.fill != "extrapolate" or self.y.ndim != 1 or len(a.base) != 1 or len(b.base) != 1 or b.guard is None:
            raise Unsupported("interp1d with selected abscissae")
        rx, ry, n = self.x.reader(), self.y.reader(), a.base[0]
        X, g = lambda j: num(rx(((j,),))), lambda j: a.cond((j,))
        j = fresh("j")
        if a.base != b.base or g(j) is not b.cond((j,)):
            raise Unsupported("interp1d with differently selected values")
        j = j.atoms()[0]
        if X(P(n)).flagged or num(ry(((Poly.atom(j),),))).flagged:
            raise Unsupported("interp1d with non-finite values")
        pair = lambda i, j: And(Lt(i, j), g(i), g(j))
        if not ctx().entails(L.ball([n, n], lambda i, j: Implies(pair(i, j), n_lt(X(i), X(j)))), 4000, congr=True):
            raise Unsupported("interp1d with selected abscissae that are not increasing")

    def _nowhere(self, n):
        """no abscissa is a number, and all ordinates are the same one"""
        rx, ry = self.x.reader(), self.y.reader()
        isnan = lambda j: num(rx(((j,),))).nan
        if self.kind != "linear" or isinstance(self.fill, str) or self.y.ndim != 1 or isnan(ZERO) is FALSE:
            return False
        if not ctx().fork(L.ball([n], isnan)):
            if ctx().entails(L.ball([n], lambda j: num(rx(((j,),))).fin), 4000):
                self.x = Arr(self.x.axes, lambda i: Num(num(rx(i)).p), "f")
                if ctx().entails(L.ball([n], lambda j: num(ry(((j,),))).fin), 4000):
                    self.y = Arr(self.y.axes, lambda i: Num(num(ry(i)).p), "f")
            return False
        y = lambda j: num(ry(((j,),)))
        same = L.ball([n], lambda j: And(y(j).fin, Eq(y(j).p, y(ZERO).p)))
        if not ctx().entails(same, 4000):
            raise Unsupported("interp1d with nan as abscissae")
        ctx().assumptions.add("scipy.interpolate.interp1d (linear, no extrapolation) of abscissae that are all nan and equal ordinates is this ordinate")
        return True

    def __call__(self, q):
        q = plain(asarr(q)) if not isinstance(asarr(q), Quantity) else plain(asarr(q))
        if self.nowhere:
            ry = self.y.reader()
            return Arr(q.axes, lambda i: ry(((ZERO,),)), "f")
        if self.masked:
            a, rx, ry, rq = self.x.axes[0], self.x.reader(), self.y.reader(), q.reader()

            def value(i):
                x = num(rq(i))
                if x.flagged:
                    raise Unsupported("interp1d with non-finite values")
                j = L._fresh_box("n", a.base)[0]
                return Num(Poly.atom(L.agg("segments", (j.atoms()[0],), a.base, a.cond((j,)), (num(rx(((j,),))).p, num(ry(((j,),))).p), (x.p,))))
            return Arr(q.axes, value, "f")
        k = self.axis
        rx, ry, rq = self.x.reader(), self.y.reader(), q.reader()
        n = self.x.axes[0].size
        na = len(q.axes)
        oaxes = tuple(self.y.axes[:k]) + tuple(q.axes) + tuple(self.y.axes[k + 1:])
        lo, hi = num(rx(((ZERO,),))), num(rx(((n - 1,),)))
        if self.bounds_error:
            z = [a.vars("q") for a in q.axes]
            e = num(rq(tuple(z)))
            m = [t.atoms()[0] for p in z for t in p]
            bad = Or(n_lt(e, lo), n_lt(hi, e))
            bb = L.bany([d for a in q.axes for d in a.base], lambda *zz: subst(bad, dict(zip(m, zz)))) if q.axes else bad
            if ctx().fork(bb):
                raise ValueError("A value in x_new is outside the interpolation range.")
        fill = self.fill
        extra = isinstance(fill, str)
        if not extra:
            fl, fh = fill if isinstance(fill, tuple) else (fill, fill)
            # arrays: the shape of y without the interpolation axis
            rest_axes = tuple(self.y.axes[:k]) + tuple(self.y.axes[k + 1:])
            fl, fh = (bc_reader(plain(asarr(v)), rest_axes) for v in (fl, fh))

        def fn(i):
            rest = tuple(i[:k]), tuple(i[k + na:])
            x = num(rq(tuple(i[k:k + na])))

            def ynode(idx):
                return ry(rest[0] + (idx[0],) + rest[1])
            if self.kind == "linear" and extra:
                v = Num(lin_extra(n, rx, ynode, x))
            elif self.kind == "linear":
                v = npshim.interp_term(n, rx, ynode, x)
            else:
                v = quad_term(n, rx, ynode, x)
            if extra:
                return v
            below, above = n_lt(x, lo), n_lt(hi, x)
            ri = rest[0] + rest[1]
            v = n_ite(below, num(fl(ri)), n_ite(above, num(fh(ri)), v))
            return v if v.flagged or self.kind == "linear" else Num(L.let(v.p))
        r = Arr(oaxes, fn, "f")
        return r


def lin_extra(n, rx, ry, x):
    j = L._fresh_box("n", [n])[0]
    b = j.atoms()[0]
    xp, fp = num(rx(((j,),))), num(ry(((j,),)))
    if xp.flagged or fp.flagged or x.flagged:
        raise Unsupported("interp1d with non-finite values")
    return npshim.interp_app(b, n, xp.p, fp.p, x.p, kind="lininterp")


def quad_term(n, rx, ry, x):
    j = L._fresh_box("n", [n])[0]
    b = j.atoms()[0]
    xp, fp = num(rx(((j,),))), num(ry(((j,),)))
    if xp.flagged or fp.flagged or x.flagged:
        raise Unsupported("interp1d with non-finite values")
    return Num(npshim.interp_app(b, n, xp.p, fp.p, x.p, kind="quadspline"))


# ------------------------------------------------------------------ scipy.optimize.brentq
def brentq(f, a, b, args=(), **k):
    """f(a), f(b) of different sign: a root between a and b; otherwise ValueError.

    The root is a function of f and the ends: the aggregate ``root``."""
    ea, eb = num(plain(asarr(a)).scalar()), num(plain(asarr(b)).scalar())
    if k:
        raise Unsupported("options of brentq")
    x = T.Var(f"x!{next(_ctr)}", "R", local=True)
    px = Poly.atom(x)
    inside = And(ea.fin, eb.fin, Or(And(Le(ea.p, px), Le(px, eb.p)), And(Le(eb.p, px), Le(px, ea.p))))
    ctx().assume_stack.append(inside)
    try:
        e = num(npshim.elementwise(lambda: f(arr0(Num(px)), *args)))
        bad = ctx().never(Not(e.fin)) if e.flagged else FALSE
    finally:
        ctx().assume_stack.pop()
    if (ea.flagged or eb.flagged) and ctx().fork(Or(Not(ea.fin), Not(eb.fin))):
        raise Unsupported("brentq with non-finite ends")
    if bad is not FALSE:
        raise Unsupported("brentq of a function that may not be finite")
    fa, fb = (T.subst(e.p, {x: y.p}) for y in (ea, eb))
    if ctx().fork(Or(And(Lt(0, fa), Lt(0, fb)), And(Lt(fa, 0), Lt(fb, 0)))):
        raise ValueError("f(a) and f(b) must have different signs")
    ctx().assumptions.add("scipy.optimize.brentq returns an exact root, inside the bracket, of the continuous function it is given")
    return arr0(Num(Poly.atom(L.agg("root", (x,), (), TRUE, (e.p,), (ea.p, eb.p)))))


class _Ctr:
    def __init__(self):
        self.n = 0

    def __next__(self):
        self.n += 1
        return self.n


_ctr = _Ctr()

# ------------------------------------------------------------------ gaussian filter
def gaussian_filter1d(x, sigma, axis=-1, mode="reflect", **k):
    """a linear filter: sum_j G(mode, sigma, n; i, j) x_j with weights >= 0 summing to 1"""
    x = asarr(x)
    axis = axis % x.ndim
    s = num(asarr(sigma).scalar())
    rd = x.reader()
    n = x.axes[axis].size
    if k or not x.axes[axis].plain:
        raise Unsupported("options of gaussian_filter1d")

    def term(i, j):
        e = num(rd(i[:axis] + ((j,),) + i[axis + 1:]))
        if e.flagged:
            raise Unsupported("nan or infinity in a gaussian filter")
        return gauss_weight(mode, s.p, n, i[axis][0], j) * e.p

    def fn(i):
        return Num(L.bsum([n], lambda j: term(i, j)))
    return x._like(x.axes, fn, "f")


_gf = {}


def gauss_weight(mode, sigma, n, i, j):
    """weight of element j of n in the filtered element i"""
    key = f"gauss_{mode}"
    if key not in _gf:
        _gf[key] = T.Fn(key, 4, "R", nonneg=True)
    return app(_gf[key], i, j, n, sigma)


# ------------------------------------------------------------------ coordinates
SEP = T.Fn("angsep", 4, "R", nonneg=True, argsorts=("R",) * 4)
SEP.axioms.append(lambda a, b, c, d: [Le(app(SEP, a, b, c, d), A.PI), *A.pi_facts(),
                                      Implies(And(Eq(a, c), Eq(b, d)), Eq(app(SEP, a, b, c, d), 0)),
                                      Eq(app(SEP, a, b, c, d), app(SEP, c, d, a, b))])
PANG = T.Fn("posang", 4, "R", nonneg=True, argsorts=("R",) * 4)
PANG.axioms.append(lambda a, b, c, d: [Lt(app(PANG, a, b, c, d), A.PI * 2), *A.pi_facts()])


def _ang(x):
    x = asarr(x)
    if isinstance(x, Quantity):
        return x.to_value(units.rad)
    return x


def _geo(fn):
    def f(lon1, lat1, lon2, lat2):
        q = any(isinstance(asarr(x), Quantity) for x in (lon1, lat1, lon2, lat2))
        xs = [_ang(x) for x in (lon1, lat1, lon2, lat2)]
        axes = broadcast([x.axes for x in xs])
        rds = [bc_reader(x, axes) for x in xs]

        def el(i):
            es = [num(r(i)) for r in rds]
            return Num(app(fn, *[e.p for e in es]), Or(*[Not(e.fin) for e in es]))
        r = Arr(axes, el, "f")
        return mkq(r, units.rad) if q else r
    return f


angular_separation = _geo(SEP)
position_angle = _geo(PANG)


OFFLON = T.Fn("skyoff_lon", 4, "R", argsorts=("R",) * 4)
OFFLAT = T.Fn("skyoff_lat", 4, "R", argsorts=("R",) * 4)


class SkyOffsetFrame:
    def __init__(self, origin=None, **k):
        if k:
            raise Unsupported("rotated offset frame")
        self.origin = origin


class SkyCoord:
    def __init__(self, *a, frame=None, unit=None, **k):
        if frame not in (None, "icrs") or unit is not None:
            raise Unsupported("SkyCoord frame")
        if len(a) == 2:
            self.ra, self.dec = a
        elif set(k) == {"ra", "dec"}:
            self.ra, self.dec = k["ra"], k["dec"]
        elif set(k) == {"alt", "az"}:
            self.ra, self.dec = k["az"], k["alt"]
        else:
            raise Unsupported("SkyCoord arguments")

    def transform_to(self, frame):
        if not isinstance(frame, SkyOffsetFrame):
            raise Unsupported("frame")
        o = frame.origin
        r = SkyCoord.__new__(SkyCoord)
        args = (o.ra, o.dec, self.ra, self.dec)
        r.lon = _geo(OFFLON)(*args)
        r.lat = _geo(OFFLAT)(*args)
        return r

    def skyoffset_frame(self, rotation=None):
        if rotation is not None:
            raise Unsupported("rotated offset frame")
        return SkyOffsetFrame(origin=self)


# ------------------------------------------------------------------ FITS
class Header(dict):
    """header cards: a mapping with upper-case keys; copy is independent"""

    def __init__(self, o=(), **k):
        super().__init__()
        for n, v in dict(o).items():
            self[n] = v

    def __setitem__(self, k, v):
        if not isinstance(k, str):
            raise Unsupported("header key")
        if isinstance(v, tuple):
            raise Unsupported("header card with a comment")
        super().__setitem__(k.upper(), v)

    def __getitem__(self, k):
        return super().__getitem__(k.upper())

    def __contains__(self, k):
        return super().__contains__(k.upper())

    def get(self, k, d=None):
        return super().get(k.upper(), d)

    def copy(self, strip=False):
        return Header(self)

    def update(self, *a, **k):
        for n, v in dict(*a, **k).items():
            self[n] = v

    def __deepcopy__(self, memo):
        return Header(self)


class Time:
    """the clock: some date"""

    @classmethod
    def now(cls):
        return cls()

    utc = property(lambda s: s)
    iso = isot = fits = value = property(lambda s: "2000-01-01 00:00:00.000")


class BinTableHDU:
    """keeps the columns of the table and the header cards (ASSUMED: faithful, copies)"""

    def __init__(self, data=None, header=None, name=None, **k):
        if k or not isinstance(data, tables.Table):
            raise Unsupported("BinTableHDU arguments")
        self.header = Header(header) if header is not None else Header()
        self.data = data.copy()
        self.name = name
        if name is not None:
            self.header["EXTNAME"] = name


# ------------------------------------------------------------------ gammapy
class MapAxis:
    """bin edges (or nodes) with unit, name and interpolation scale"""

    def __init__(self, nodes, interp="lin", name="", node_type="edges", unit="", boundary_type="monotonic"):
        if boundary_type != "monotonic" or node_type != "edges":
            raise Unsupported("MapAxis that is not made of edges")
        if not isinstance(name, str):
            raise TypeError("Name must be a string")
        nodes = asarr(nodes)
        if not isinstance(nodes, Quantity):
            nodes = mkq(nodes, units.as_unit(unit))
        v = plain(nodes)
        if v.ndim != 1:
            raise Unsupported("MapAxis of several dimensions")
        n, rd = v.axes[0].size, v.reader()
        if not ctx().entails(L.ball([n - 1], lambda j: n_lt(num(rd(((j,),))), num(rd(((j + 1,),))))), 4000):
            raise Unsupported("MapAxis with edges that may not be increasing")
        if interp != "lin" and not ctx().entails(L.ball([n], lambda j: n_le(Num(ZERO), num(rd(((j,),))))), 4000):
            raise Unsupported("scaled MapAxis of edges that may be negative")
        self.edges, self.name, self.interp, self.node_type = nodes.copy(), name, interp, node_type
        self.unit = nodes.unit_
        self.nbin = n - 1

    @classmethod
    def from_edges(cls, edges, **k):
        if not ctx().fork(Le(2, asarr(edges).axes[0].size)):
            raise ValueError("Edges array must have at least two elements.")
        return cls(edges, node_type="edges", **k)

    @classmethod
    def from_energy_edges(cls, energy_edges, unit=None, name=None, interp="log"):
        if not isinstance(asarr(energy_edges), Quantity) or unit is not None or name not in (None, "energy", "energy_true"):
            raise Unsupported("arguments of from_energy_edges")
        return cls.from_edges(energy_edges, name=name or "energy", interp=interp)


class _Irf:
    """axes with the required names in the required order, and data of their shape"""

    def __init__(self, axes, data=0, unit="", is_pointlike=False, meta=None, **k):
        if k:
            raise Unsupported("options of the gammapy irf")
        axes = list(axes)
        if [a.name for a in axes] != self.required_axes:
            raise ValueError("Incorrect axis order or names.")
        data = asarr(data)
        if isinstance(data, Quantity):
            if not data.unit_.is_equivalent(units.as_unit(self.default_unit)):
                raise ValueError("not an allowed unit")
            un, data = data.unit_, plain(data)
        else:
            un = units.as_unit(unit)
        if data.ndim == 0:
            raise Unsupported("irf of one value")
        if data.ndim != len(axes) or ctx().fork(Or(*[Not(Eq(x.size, a.nbin)) for x, a in zip(data.axes, axes)])):
            raise ValueError("data shape does not match the axes shape")
        self.axes, self.data, self.unit, self.is_pointlike, self.meta = axes, data, un, is_pointlike, meta or {}
        self.quantity = mkq(data, un)


class EffectiveAreaTable2D(_Irf):
    required_axes, default_unit = ["energy_true", "offset"], "m2"


class PSF3D(_Irf):
    required_axes, default_unit = ["energy_true", "offset", "rad"], "sr-1"


class EnergyDispersion2D(_Irf):
    required_axes, default_unit = ["energy_true", "migra", "offset"], ""


# ------------------------------------------------------------------ modules
def mod(name, **k):
    m = types.ModuleType(name)
    for n, v in k.items():
        setattr(m, n, v)
    m.__getattr__ = lambda n: (_ for _ in ()).throw(AttributeError(n)) if n.startswith("__") else Missing(f"{name}.{n}")
    return m


class tqdm:
    """progress bar: the iterable itself"""

    def __new__(cls, it=None, *a, **k):
        return it if it is not None else object.__new__(cls)

    def __init__(self, *a, **k):
        pass

    def update(self, n=1):
        pass

    set_description = set_postfix = refresh = lambda self, *a, **k: None

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def make():
    u = types.ModuleType("astropy.units")
    for n, v in units.NAMED.items():
        if n.isidentifier():
            setattr(u, n, v)
    u.Quantity, u.Unit, u.UnitBase = Quantity, units.Unit, units.UnitBase
    u.quantity_input = units.quantity_input
    u.dimensionless_unscaled = units.one
    u.one = units.one
    u.UnitsError, u.UnitConversionError, u.UnitTypeError = units.UnitsError, units.UnitConversionError, units.UnitTypeError
    u.steradian = units.sr
    u.__getattr__ = _unit_attr
    table = tables.module()
    coords = mod("astropy.coordinates", angular_separation=angular_separation, position_angle=position_angle, SkyCoord=SkyCoord, SkyOffsetFrame=SkyOffsetFrame,
                 Angle=Missing("Angle"))
    fits = mod("astropy.io.fits", Header=Header, BinTableHDU=BinTableHDU)
    aio = mod("astropy.io", fits=fits)
    astropy = mod("astropy", units=u, table=table, coordinates=coords, io=aio, time=mod("astropy.time", Time=Time))
    np = npshim.module()
    np.__getattr__ = lambda n: (_ for _ in ()).throw(AttributeError(n)) if n.startswith("__") else Missing(f"numpy.{n}")
    scipy = mod("scipy", interpolate=mod("scipy.interpolate", interp1d=interp1d, griddata=geometry.griddata),
                optimize=mod("scipy.optimize", brentq=brentq), stats=mod("scipy.stats", norm=_norm()),
                ndimage=mod("scipy.ndimage", gaussian_filter1d=gaussian_filter1d),
                spatial=mod("scipy.spatial", Delaunay=geometry.Delaunay))
    tq = mod("tqdm", auto=mod("tqdm.auto", tqdm=tqdm), tqdm=tqdm)
    itools = types.ModuleType("itertools")
    import itertools as _it
    itools.__dict__.update({k: v for k, v in vars(_it).items() if not k.startswith("__")})
    itools.product = loops.s_product
    return {"numpy": np, "astropy": astropy, "scipy": scipy, "tqdm": tq, "itertools": itools, "gammapy": mod("gammapy", irf=mod("gammapy.irf", EffectiveAreaTable2D=EffectiveAreaTable2D, PSF3D=PSF3D, EnergyDispersion2D=EnergyDispersion2D),
                                maps=mod("gammapy.maps", MapAxis=MapAxis))}


def _unit_attr(n):
    if n.startswith("__"):
        raise AttributeError(n)
    if n in units.NAMED:
        return units.NAMED[n]
    raise AttributeError(n)
