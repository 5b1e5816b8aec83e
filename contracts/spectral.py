"""Contracts of pyirf/spectral.py: flux models, event weights, simulated spectra"""
from engine.harness import Contract, contract
import numpy as np

POINT = "TeV-1 s-1 m-2"
DIFFUSE = "TeV-1 s-1 m-2 sr-1"
MOD = "pyirf.spectral"


def flux_norm(b, name="normalization"):
    kind = b.choice("flux", ["point", "diffuse"])
    base = POINT if kind == "point" else DIFFUSE
    u = b.unit(base, name)
    return kind, base, b.quantity(name, (), u, pos=True, gen=lambda r: 10 ** r.uniform(-12, -2))


def any_energy(b):
    ue = b.unit("TeV", "energy")
    if b.choice("energy_shape", ["array", "scalar"]) == "array":
        return b.quantity("energy", (b.dim("n", 0),), ue, pos=True, gen=lambda r: 10 ** r.uniform(-2, 3))
    return b.quantity("energy", (), ue, pos=True, gen=lambda r: 10 ** r.uniform(-2, 3))


class _Spectrum(Contract):
    """value of the flux model at every energy, in a flux unit of the kind of the normalization"""
    prop = "P05"
    samples = (80, 800)

    def value(self, S, a, e):
        raise NotImplementedError

    def post(self, S, a, r):
        E = a["_energy"]
        base = a["_base"]
        yield "unit", S.unit_like(r, base)
        v, e = S.to(r, base), S.to(E, "TeV")
        if S.is_scalar(E):
            yield "shape", S.is_scalar(r)
            yield "value", S.eq(S.num(v), self.value(S, a, S.num(e)))
        else:
            yield "shape", S.shape_is(r, S.n(E))
            yield "value", S.n(E), lambda i: S.eq(S.at(v, i), self.value(S, a, S.at(e, i)))


@contract
class PowerLawValue(_Spectrum):
    target = MOD + ":PowerLaw"
    covers = ("pyirf.spectral:PowerLaw.__call__",)

    def inputs(self, b):
        kind, base, n = flux_norm(b)
        return dict(_base=base, normalization=n, index=b.scalar("index", lo=-6, hi=0, gen=lambda r: r.choice([0.0, -1.0, r.uniform(-5, 0)])),
                    e_ref=b.quantity("e_ref", (), b.unit("TeV", "e_ref"), pos=True, gen=lambda r: 10 ** r.uniform(-2, 2)), _energy=any_energy(b))

    def call(self, f, a):
        return f(a["normalization"], a["index"], a["e_ref"])(a["_energy"])

    def value(self, S, a, e):
        return S.num(a["normalization"], a["_base"]) * S.pow(e / S.num(a["e_ref"], "TeV"), S.num(a["index"]))


@contract
class PowerLawPositiveIndex(Contract):
    prop = "P05"
    target = MOD + ":PowerLaw"
    samples = (30, 200)
    raises = [(ValueError, lambda S, a: S.lt(0, S.num(a["index"])))]

    def inputs(self, b):
        kind, base, n = flux_norm(b)
        return dict(normalization=n, index=b.scalar("index", gen=lambda r: r.choice([0.0, -1.0, 1.0, 1e-9, r.uniform(-5, 5)])))


@contract
class SpectrumUnits(Contract):
    """normalizations that are not a flux and energies that are not energies are refused"""
    prop = "P05"
    target = MOD + ":PowerLaw"
    samples = (20, 100)
    raises = [(Exception, lambda S, a: S.true(True))]

    def inputs(self, b):
        kind = b.choice("what", ["norm", "e_ref", "energy"])
        un = b.unit("TeV-1 s-1" if kind == "norm" else POINT, "normalization")
        return dict(_kind=kind, normalization=b.quantity("normalization", (), un, pos=True), index=b.scalar("index", lo=-5, hi=-1),
                    e_ref=b.quantity("e_ref", (), b.unit("m" if kind == "e_ref" else "TeV", "e_ref"), pos=True),
                    _energy=b.quantity("energy", (b.dim("n", 1),), b.unit("s" if kind == "energy" else "TeV", "energy"), pos=True))

    def call(self, f, a):
        return f(a["normalization"], a["index"], a["e_ref"])(a["_energy"])


@contract
class LogParabolaValue(_Spectrum):
    target = MOD + ":LogParabola"
    covers = ("pyirf.spectral:LogParabola.__call__",)

    def inputs(self, b):
        kind, base, n = flux_norm(b)
        return dict(_base=base, normalization=n, a=b.scalar("a", lo=-6, hi=2), b=b.scalar("b", lo=-2, hi=2),
                    e_ref=b.quantity("e_ref", (), b.unit("TeV", "e_ref"), pos=True, gen=lambda r: 10 ** r.uniform(-2, 2)), _energy=any_energy(b))

    def call(self, f, a):
        return f(a["normalization"], a["a"], a["b"], a["e_ref"])(a["_energy"])

    def value(self, S, a, e):
        x = e / S.num(a["e_ref"], "TeV")
        return S.num(a["normalization"], a["_base"]) * S.pow(x, S.num(a["a"]) + S.num(a["b"]) * S.log10(x))


@contract
class ElectronSpectrumValue(_Spectrum):
    target = MOD + ":PowerLawWithExponentialGaussian"
    covers = ("pyirf.spectral:PowerLawWithExponentialGaussian.__call__", "pyirf.spectral:PowerLaw.__init__", "pyirf.spectral:PowerLaw.__call__")

    def inputs(self, b):
        kind, base, n = flux_norm(b)
        return dict(_base=base, normalization=n, index=b.scalar("index", lo=-6, hi=0),
                    e_ref=b.quantity("e_ref", (), b.unit("TeV", "e_ref"), pos=True, gen=lambda r: 10 ** r.uniform(-2, 2)),
                    f=b.scalar("f", lo=0, hi=5), mu=b.scalar("mu", lo=-3, hi=3), sigma=b.scalar("sigma", lo=0, hi=3, strict="lo"), _energy=any_energy(b))

    def call(self, f, a):
        return f(a["normalization"], a["index"], a["e_ref"], a["f"], a["mu"], a["sigma"])(a["_energy"])

    def value(self, S, a, e):
        x = e / S.num(a["e_ref"], "TeV")
        z = (S.log10(x) - S.num(a["mu"])) / S.num(a["sigma"])
        return S.num(a["normalization"], a["_base"]) * S.pow(x, S.num(a["index"])) * (1 + S.num(a["f"]) * (S.exp(S.exp(-z * z / 2)) - 1))


@contract
class TableSpectrumValue(_Spectrum):
    """piecewise (log-)linear through the flux points, straight lines beyond the ends"""
    target = MOD + ":TableInterpolationSpectrum"
    covers = ("pyirf.spectral:TableInterpolationSpectrum.__call__", "pyirf.spectral:TableInterpolationSpectrum.from_table")

    def inputs(self, b):
        base = DIFFUSE if b.choice("flux", ["point", "diffuse"]) == "diffuse" else POINT
        m = b.dim("m", 2)
        e = b.edges("table_energy", m, b.unit("TeV", "table_energy"), pos=True)
        fl = b.quantity("table_flux", (m,), b.unit(base, "table_flux"), pos=True, gen=lambda r: 10 ** r.uniform(-4, 2))
        le, lf = b.choice("log_energy", [True, False]), b.choice("log_flux", [True, False])
        ref = b.quantity("e_ref", (), b.unit("TeV", "e_ref"), pos=True, gen=lambda r: 10 ** r.uniform(-1, 1))
        k = b.dim("k", 0) if b.symbolic else 0
        un = b.unit("TeV", "energy")
        if b.symbolic:
            en = b.quantity("energy", (b.dim("n", 0),), un, pos=True)
        else:
            ev = np.asarray(e.to_value(un))
            en = b.quantity("energy", (b.dim("n", 0),), un, gen=lambda r: float(ev[0] * (ev[-1] / ev[0]) ** r.uniform(-0.5, 1.5)) if r.random() < .8 else float(r.choice(list(ev))))
        return dict(_base=base, _e=e, _f=fl, _le=le, _lf=lf, _ref=ref, _energy=en)

    def call(self, f, a):
        return f(a["_e"], a["_f"], log_energy=a["_le"], log_flux=a["_lf"], reference_energy=a["_ref"])(a["_energy"])

    def post(self, S, a, r):
        base, E = a["_base"], a["_energy"]
        un = S.unit(a["_f"])
        ref = S.num(a["_ref"], "TeV")
        te, tf = S.to(a["_e"], "TeV"), S.to(a["_f"], un)
        lx = lambda x: S.log10(x / ref) if a["_le"] else x / ref
        ly = lambda y: S.log10(y) if a["_lf"] else y
        yield "unit", S.unit_like(r, base)
        v, e = S.to(r, un), S.to(E, "TeV")
        yield "shape", S.shape_is(r, S.n(E))
        m = S.n(a["_e"])

        def line(i, j):
            x = lx(S.at(e, i))
            x0, x1 = lx(S.at(te, j)), lx(S.at(te, j + 1))
            y0, y1 = ly(S.at(tf, j)), ly(S.at(tf, j + 1))
            return y0 + (y1 - y0) * (x - x0) / (x1 - x0)
        on = lambda i, j: S.And(S.Or(S.le(S.at(te, j), S.at(e, i)), S.ieq(j, 0)), S.Or(S.le(S.at(e, i), S.at(te, j + 1)), S.ieq(j, m - 2)))
        tol = {} if S.symbolic else dict(rtol=1e-6, scale=1 if a["_lf"] else 1e-3 * max(S.at(tf, j) for j in range(S.n(a["_f"]))))
        yield "on the segment", (S.n(E), m - 1), lambda i, j: S.Implies(on(i, j), S.eq(ly(S.at(v, i)), line(i, j), **tol))


@contract
class EventWeights(Contract):
    """weight = target flux / simulated flux at the true energy of each event"""
    prop = "P05"
    target = MOD + ":calculate_event_weights"

    def inputs(self, b):
        n = b.dim("n", 0)
        e = b.quantity("true_energy", (n,), b.unit("TeV", "energy"), pos=True, gen=lambda r: 10 ** r.uniform(-2, 3))
        kind = b.choice("flux", ["point", "diffuse"])
        base = POINT if kind == "point" else DIFFUSE
        k = {}
        for s in ("target", "simulated"):
            k[s] = dict(normalization=b.quantity("norm_" + s, (), b.unit(base, s), pos=True, gen=lambda r: 10 ** r.uniform(-10, 2)),
                        index=b.scalar("index_" + s, lo=-5, hi=-1),
                        e_ref=b.quantity("e_ref_" + s, (), b.unit("TeV", "e_ref_" + s), pos=True, gen=lambda r: 10 ** r.uniform(-1, 1)))
        return dict(true_energy=e, _spec=k, _base=base)

    def call(self, f, a):
        P = self.get(MOD + ":PowerLaw")
        pl = lambda k: P(k["normalization"], k["index"], k["e_ref"])
        return f(a["true_energy"], pl(a["_spec"]["target"]), pl(a["_spec"]["simulated"]))

    def post(self, S, a, r):
        e = S.to(a["true_energy"], "TeV")
        yield "no unit", S.Not(S.has_unit(r))
        yield "shape", S.shape_is(r, S.n(a["true_energy"]))

        def flux(k, x):
            return S.num(k["normalization"], a["_base"]) * S.pow(x / S.num(k["e_ref"], "TeV"), S.num(k["index"]))
        yield "ratio", S.n(a["true_energy"]), lambda i: S.eq(S.at(r, i), flux(a["_spec"]["target"], S.at(e, i)) / flux(a["_spec"]["simulated"], S.at(e, i)))


@contract
class EventWeightsUnits(EventWeights):
    """point-like and diffuse spectra do not mix, and energies must be energies"""
    samples = (30, 200)
    raises = [(Exception, lambda S, a: S.true(True))]

    def inputs(self, b):
        kind = b.choice("mismatch", ["flux", "energy"])
        n = b.dim("n", 1)
        e = b.quantity("true_energy", (n,), b.unit("m" if kind == "energy" else "TeV", "energy"), pos=True)
        k = {}
        for s, base in (("target", POINT), ("simulated", DIFFUSE if kind == "flux" else POINT)):
            k[s] = dict(normalization=b.quantity("norm_" + s, (), b.unit(base, s), pos=True), index=b.scalar("index_" + s, lo=-5, hi=-1),
                        e_ref=b.quantity("e_ref_" + s, (), b.unit("TeV", "e_ref_" + s), pos=True))
        return dict(true_energy=e, _spec=k)

    def post(self, S, a, r):
        return ()



class _Reference(Contract):
    prop = "P05"
    samples = (30, 200)

    def inputs(self, b):
        return dict(_energy=any_energy(b))

    def call(self, f, a):
        return f(a["_energy"])

    def post(self, S, a, r):
        E = a["_energy"]
        yield "unit", S.unit_like(r, self.base)
        v, e = S.to(r, self.base), S.to(E, "TeV")
        if S.is_scalar(E):
            yield "value", S.eq(S.num(v), self.value(S, S.num(e)))
        else:
            yield "shape", S.shape_is(r, S.n(E))
            yield "value", S.n(E), lambda i: S.eq(S.at(v, i), self.value(S, S.at(e, i)))


def _reference(name, base_, fn):
    return contract(type("Reference_" + name, (_Reference,), dict(
        target=f"{MOD}:{name}", base=base_, value=lambda self, S, e: fn(S, e), __doc__=f"the published parametrization {name}")))


# published parametrizations in TeV, s, m, sr
_reference("CRAB_HEGRA", POINT, lambda S, e: 2.83e-7 * S.pow(e, -2.62))
_reference("CRAB_MAGIC_JHEAP2015", POINT, lambda S, e: 3.23e-7 * S.pow(e, -2.47 + -0.24 * S.log10(e)))
_reference("PDG_ALL_PARTICLE", DIFFUSE, lambda S, e: 1.8e7 * S.pow(e * 1000, -2.7))
_reference("IRFDOC_PROTON_SPECTRUM", DIFFUSE, lambda S, e: 9.8e-2 * S.pow(e, -2.62))
_reference("IRFDOC_ELECTRON_SPECTRUM", DIFFUSE, lambda S, e: 2.385e-5 * S.pow(e, -3.43) * (
    1 + 1.95 * (S.exp(S.exp(((S.log10(e) + 0.101) / 0.741) * ((S.log10(e) + 0.101) / 0.741) / -2)) - 1)))


# ---------------------------------------------------------------- simulated spectrum
def _norm_of(S, p, base):
    return S.num(p.normalization, base)


@contract
class FromSimulation(Contract):
    """flux x area x time x solid angle, integrated over the energy range, is the number of showers"""
    prop = "P06"
    target = MOD + ":PowerLaw"
    covers = ("pyirf.spectral:PowerLaw.from_simulation", "pyirf.utils:cone_solid_angle", "pyirf.simulations:SimulatedEventsInfo.__init__")

    def inputs(self, b):
        from .simulations import info_inputs
        cone = b.choice("cone", [True, False])
        info, meta = info_inputs(b, cone=cone)
        if not cone:
            info["viewcone_max"] = info["viewcone_min"]
        b.require(b.S.le(b.S.num(info["viewcone_max"], "rad"), b.S.pi))
        return dict(_info=info, _cone=cone, obstime=b.quantity("obstime", (), b.unit("s", "obstime"), pos=True),
                    e_ref=b.quantity("e_ref", (), b.unit("TeV", "e_ref"), pos=True, gen=lambda r: 10 ** r.uniform(-2, 2)))

    def call(self, f, a):
        I = self.get("pyirf.simulations:SimulatedEventsInfo")
        return f.from_simulation(I(**a["_info"]), a["obstime"], a["e_ref"])

    def post(self, S, a, r):
        i = a["_info"]
        base = DIFFUSE if a["_cone"] else POINT
        num = lambda k, u=None: S.num(i[k], u)
        yield "unit", S.unit_like(r.normalization, base)
        yield "index", S.eq(S.num(r.index), num("spectral_index"))
        yield "e_ref", S.eq(S.num(r.e_ref, "TeV"), S.num(a["e_ref"], "TeV"))
        area = S.pi * num("max_impact", "m") * num("max_impact", "m")
        omega = 2 * S.pi * (S.cos(num("viewcone_min", "rad")) - S.cos(num("viewcone_max", "rad"))) if a["_cone"] else 1
        ref, lo, hi, g = S.num(a["e_ref"], "TeV"), num("energy_min", "TeV"), num("energy_max", "TeV"), num("spectral_index")
        if isinstance(i["spectral_index"], int):
            integral = ref * S.log(hi / lo)
        else:
            integral = S.pow(ref, -g) * (S.pow(hi, g + 1) - S.pow(lo, g + 1)) / (g + 1)
        n = _norm_of(S, r, base) * area * S.num(a["obstime"], "s") * omega * integral
        # cos(min) - cos(max) of a narrow cone cancels
        tol = {} if S.symbolic else dict(rtol=1e-6)
        yield "number of showers", S.eq(n, num("n_showers"), **tol)


@contract
class IntegrateCone(Contract):
    """a diffuse flux times the solid angle between two opening angles"""
    prop = "P06"
    target = MOD + ":PowerLaw"
    covers = ("pyirf.spectral:PowerLaw.integrate_cone", "pyirf.utils:cone_solid_angle")
    raises = [(ValueError, lambda S, a: S.true(a["_base"] == POINT))]

    def inputs(self, b):
        kind, base, n = flux_norm(b)
        return dict(_base=base, normalization=n, index=b.scalar("index", lo=-6, hi=0),
                    e_ref=b.quantity("e_ref", (), b.unit("TeV", "e_ref"), pos=True, gen=lambda r: 10 ** r.uniform(-2, 2)),
                    _inner=b.quantity("inner", (), b.unit("deg", "inner"), nonneg=True, gen=lambda r: r.choice([0.0, r.uniform(0, 1)])),
                    _outer=b.quantity("outer", (), b.unit("deg", "outer"), nonneg=True, gen=lambda r: r.uniform(1, 3)))

    def call(self, f, a):
        return f(a["normalization"], a["index"], a["e_ref"]).integrate_cone(a["_inner"], a["_outer"])

    def post(self, S, a, r):
        yield "unit", S.unit_like(r.normalization, POINT)
        om = 2 * S.pi * (S.cos(S.num(a["_inner"], "rad")) - S.cos(S.num(a["_outer"], "rad")))
        tol = {} if S.symbolic else dict(rtol=1e-6)
        yield "normalization", S.eq(_norm_of(S, r, POINT), S.num(a["normalization"], a["_base"]) * om, **tol)
        yield "index", S.eq(S.num(r.index), S.num(a["index"]))
        yield "e_ref", S.eq(S.num(r.e_ref, "TeV"), S.num(a["e_ref"], "TeV"))
