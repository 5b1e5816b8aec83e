"""Contracts of pyirf/gammapy.py: gammapy irf objects"""
from engine.harness import Contract, contract

M = "pyirf.gammapy"


class _Gammapy(Contract):
    prop = "P24"
    samples = (25, 200)
    axes = ()        # (argument, unit, axis name) in the order of the axes of the data
    data = None      # (argument, unit)
    assumes = ("gammapy: an irf keeps the axes and the data it is created with, and requires its axis names, their order and the shape of the data",)

    def inputs(self, b):
        a, dims, axes = {}, [], []
        for arg, un, name in self.axes:
            n = b.dim("n_" + name, 1, None if b.symbolic else 4)
            dims.append(n)
            a[arg] = b.edges(arg, n + 1, b.unit(un, arg) if un else None, nonneg=True)
            if not un and b.choice("dimensionless quantity", [False, True]):
                a[arg] = b.const(a[arg], "")
        arg, un = self.data
        # or: values of another shape
        shape = tuple(dims)
        if b.choice("shape", ["same", "same", "any"]) == "any":
            shape = tuple(b.dim("m%d" % i, 1, None if b.symbolic else 4) for i in range(len(dims)))
        v = b.quantity(arg, shape, b.unit(un, "data"), nan=True) if un else b.array(arg, shape, nan=True)
        if not un and b.choice("data as quantity", [False, True]):
            v = b.const(v, "")
        return dict(_a={arg: v, **a}, _shape=shape, _dims=tuple(dims))

    def call(self, f, a):
        return f(**a["_a"])

    raises = [(ValueError, lambda S, a: S.Not(S.And(*[S.ieq(x, y) for x, y in zip(a["_shape"], a["_dims"])])))]

    def post(self, S, a, r):
        yield "kind", S.true(type(r).__name__ == self.result)
        yield "axes", S.true([x.name for x in r.axes] == [n for _, _, n in self.axes])
        # relative units of very different size
        eq = (lambda x, y: S.eq(x, y)) if S.symbolic else (lambda x, y: S.eq(x, y, rtol=1e-9))
        for x, (arg, un, name) in zip(r.axes, self.axes):
            e, g = x.edges, a["_a"][arg]
            n = S.n(g)
            yield "edges of " + name, S.true(x.node_type == "edges")
            yield "number of edges of " + name, S.shape_is(e, n)
            if un:
                yield "unit of " + name, S.same_unit(e, g)
            else:
                yield "unit of " + name, S.unit_is(e, "")
            e, g = S.to(e, None), S.to(g, None)
            yield name, n, lambda i, e=e, g=g: eq(S.at(e, i), S.at(g, i))
        arg, un = self.data
        q, v = r.quantity, a["_a"][arg]
        yield "unit of the data", S.same_unit(q, v) if un else S.unit_is(q, "")
        yield "shape of the data", S.shape_is(q, *a["_dims"])
        q, v = S.to(q, None), S.to(v, None)
        yield "data", a["_dims"], lambda *i: S.Or(S.And(S.isnan(S.at(q, *i)), S.isnan(S.at(v, *i))), S.And(S.Not(S.isnan(S.at(q, *i))), S.Not(S.isnan(S.at(v, *i))), eq(S.at(q, *i), S.at(v, *i))))


ENERGY, OFFSET = ("true_energy_bins", "TeV", "energy_true"), ("fov_offset_bins", "deg", "offset")


@contract
class GammapyAeff(_Gammapy):
    target, result = M + ":create_effective_area_table_2d", "EffectiveAreaTable2D"
    axes, data = (ENERGY, OFFSET), ("effective_area", "m2")


@contract
class GammapyPsf(_Gammapy):
    target, result = M + ":create_psf_3d", "PSF3D"
    axes, data = (ENERGY, OFFSET, ("source_offset_bins", "deg", "rad")), ("psf", "sr-1")


@contract
class GammapyEdisp(_Gammapy):
    target, result = M + ":create_energy_dispersion_2d", "EnergyDispersion2D"
    axes, data = (ENERGY, ("migration_bins", None, "migra"), OFFSET), ("energy_dispersion", None)
