"""Contracts of pyirf/cuts: percentile cuts, evaluation and comparison of binned cuts"""
from engine.harness import Contract, contract
import operator
import numpy as np
from .common import binned, binned_array

M = "pyirf.cuts"


def in_bin(S, e, k, x):
    """half open bins, as in the bin lookup (P01)"""
    return S.And(S.le(S.at(e, k), x), S.lt(x, S.at(e, k + 1)))


# ---------------------------------------------------------------- percentile cuts
class _Percentile(Contract):
    prop = "P16"
    target = M + ":calculate_percentile_cut"
    samples = (60, 500)
    quantity = True
    several = False
    limits = ("none", "both", "min", "max")
    smoothing = None
    nan = False

    def inputs(self, b):
        n = b.dim("n", 0)
        m = b.dim("m", 2, None if b.symbolic else 7)
        ub = b.unit("TeV", "bins")
        bins = b.edges("bins", m, ub, pos=True)
        bv = binned(b, "bin_values", (n,), b.unit("TeV", "bin_values"), bins, pos=True)
        uv = b.unit("deg", "values") if self.quantity else None
        k = dict(nan=True) if self.nan else {}
        values = b.quantity("values", (n,), uv, nonneg=True, **k) if self.quantity else b.array("values", (n,), nonneg=True, **k)
        one = (lambda name: b.quantity(name, (), b.unit("deg", name), nonneg=True)) if self.quantity else (lambda name: b.scalar(name, nonneg=True))
        kw = dict(fill_value=one("fill_value"), min_events=b.scalar("min_events", kind="i", lo=1, hi=6))
        lim = b.choice("limits", self.limits) if len(self.limits) > 1 else self.limits[0]
        if lim in ("both", "min"):
            kw["min_value"] = one("min_value")
        if lim in ("both", "max"):
            kw["max_value"] = one("max_value")
        if lim == "both":
            b.require(b.S.le(b.S.num(kw["min_value"], uv), b.S.num(kw["max_value"], uv)) if self.quantity else b.S.le(b.S.num(kw["min_value"]), b.S.num(kw["max_value"])))
        npc = None
        if self.several:
            npc = b.dim("n_percentiles", 1, None if b.symbolic else 4)
            pc = b.array("percentile", (npc,), lo=0, hi=100)
        else:
            pc = b.scalar("percentile", lo=0, hi=100)
        kw["percentile"] = pc
        if self.smoothing:
            kw["smoothing"] = b.scalar("smoothing", lo=0.1, hi=3)
        return dict(_v=values, _bv=bv, _bins=bins, _kw=kw, _n=n, _m=m, _uv=uv, _npc=npc)

    def call(self, f, a):
        return f(a["_v"], a["_bv"], a["_bins"], **a["_kw"])

    def raw(self, S, a):
        """the cut of bin k for percentile p before smoothing"""
        kw, n = a["_kw"], a["_n"]
        v, x, e = S.to(a["_v"], a["_uv"]), S.to(a["_bv"], "TeV"), S.to(a["_bins"], "TeV")
        one = lambda q: S.num(q, a["_uv"]) if a["_uv"] is not None else S.num(q)
        inb = lambda i, k: in_bin(S, e, k, S.at(x, i))
        ok = (lambda i, k: S.And(inb(i, k), S.Not(S.isnan(S.at(v, i))))) if self.nan else inb
        N = lambda k: S.count(n, lambda i: inb(i, k))
        fill = one(kw["fill_value"])

        def cut(k, p):
            q = S.quantile(n, lambda i: S.at(v, i), (S.at(kw["percentile"], p) if a["_npc"] is not None else S.num(kw["percentile"])) / 100, where=lambda i: ok(i, k))
            if "min_value" in kw:
                lo = one(kw["min_value"])
                q = S.ite(S.lt(q, lo), lo, q)
            if "max_value" in kw:
                hi = one(kw["max_value"])
                q = S.ite(S.lt(hi, q), hi, q)
            few = S.Or(S.lt(N(k), 1), S.lt(N(k), S.num(kw["min_events"])))
            return S.ite(few, fill, q)
        return N, cut

    def post(self, S, a, r):
        m, npc = a["_m"], a["_npc"]
        nb = m - 1
        lo, hi, c = (S.to(S.col(r, s), "TeV") for s in ("low", "high", "center"))
        E = lambda k: S.at(S.to(a["_bins"], "TeV"), k)
        yield "columns", S.cols_are(r, ["low", "high", "center", "n_events", "cut"])
        cut = S.col(r, "cut")
        yield "unit", S.true(S.has_unit(cut) == self.quantity)
        cut = S.to(cut, a["_uv"])
        yield "shape", S.And(*[S.shape_is(q, nb) for q in (lo, hi, c, S.col(r, "n_events"))])
        yield "shape of cut", S.shape_is(cut, nb) if npc is None else S.shape_is(cut, nb, npc)
        yield "low", nb, lambda k: S.eq(S.at(lo, k), E(k))
        yield "high", nb, lambda k: S.eq(S.at(hi, k), E(k + 1))
        yield "center", nb, lambda k: S.eq(2 * S.at(c, k), E(k) + E(k + 1))
        N, want = self.raw(S, a)
        yield "n_events", nb, lambda k: S.ieq(S.at(S.col(r, "n_events"), k), N(k))
        dims = (nb,) if npc is None else (nb, npc)
        yield from self.cuts(S, a, dims, lambda *i: S.at(cut, *i), want)

    def cuts(self, S, a, dims, cut, want):
        # concrete runs: below the smallest normal number nothing is comparable
        yield "cut", dims, lambda k, p=0: S.eq(cut(k) if len(dims) == 1 else cut(k, p), want(k, p))


@contract
class PercentileCut(_Percentile):
    pass


@contract
class PercentileCutPlain(_Percentile):
    quantity = False
    limits = ("none", "both")


@contract
class PercentileCutSeveral(_Percentile):
    several = True
    limits = ("none", "both")


@contract
class PercentileCutNan(_Percentile):
    nan = True
    limits = ("none",)

    def inputs(self, b):
        a = _Percentile.inputs(self, b)
        # every bin with events has at least one that is a number
        S, v, x, e = b.S, b.S.to(a["_v"], a["_uv"]), b.S.to(a["_bv"], "TeV"), b.S.to(a["_bins"], "TeV")
        b.require_all(a["_n"], lambda i: S.all(a["_m"] - 1, lambda k: S.Implies(
            in_bin(S, e, k, S.at(x, i)), S.any(a["_n"], lambda j: S.And(in_bin(S, e, k, S.at(x, j)), S.Not(S.isnan(S.at(v, j))))))))
        return a


class _Smoothed(_Percentile):
    smoothing = True
    limits = ("none",)
    samples = (40, 300)

    def cuts(self, S, a, dims, cut, want):
        m, kw = a["_m"], a["_kw"]
        sg = S.num(kw["smoothing"])
        yield "cut", dims, lambda k, p=0: S.eq(cut(k) if len(dims) == 1 else cut(k, p), S.sum(m - 1, lambda j: S.gauss("nearest", sg, m - 1, k, j) * want(j, p)))


@contract
class PercentileSmoothed(_Smoothed):
    pass


@contract
class PercentileSmoothedSeveral(_Smoothed):
    several = True


# ---------------------------------------------------------------- evaluation of cuts
def cut_table(b, several=False):
    m = b.dim("m", 2, None if b.symbolic else 7)
    ub, uc = b.unit("TeV", "bins"), b.unit("deg", "cut")
    bins = b.edges("bins", m, ub, pos=True)
    cut = b.quantity("cut", (m - 1,), uc, nonneg=True, nan=True)
    # the borders may be given in two units
    high = bins[1:].to(b.unit("TeV", "high")) if b.choice("border_units", ["same", "two"]) == "two" else bins[1:]
    return b.table(dict(low=bins[:-1], high=high, cut=cut)), bins, cut


OPS = {"le": operator.le, "ge": operator.ge, "lt": operator.lt, "gt": operator.gt}


def compare(S, op, x, y):
    return {"le": S.le(x, y), "ge": S.le(y, x), "lt": S.lt(x, y), "gt": S.lt(y, x)}[op]


@contract
class EvaluateBinnedCut(Contract):
    """an event passes if it compares as asked with the cut of its bin; outside the bins it fails"""
    prop = "P17"
    target = M + ":evaluate_binned_cut"
    covers = (M + ":evaluate_binned_cut_by_index",)

    def inputs(self, b):
        n = b.dim("n", 0)
        t, bins, cut = cut_table(b)
        bv = binned(b, "bin_values", (n,), b.unit("TeV", "bin_values"), bins, pos=True)
        uv = b.unit("deg", "values")
        v = b.quantity("values", (n,), uv, nonneg=True, nan=True)
        return dict(values=v, bin_values=bv, cut_table=t, op=OPS[b.choice("op", list(OPS))], _bins=bins, _cut=cut, _n=n)

    def post(self, S, a, r):
        op = next(k for k, f in OPS.items() if f is a["op"])
        x, e = S.to(a["bin_values"], "TeV"), S.to(a["_bins"], "TeV")
        v, c = S.to(a["values"], "deg"), S.to(a["_cut"], "deg")
        m = S.n(e)
        yield "shape", S.shape_is(r, a["_n"])
        # conversions round: to the unit of the values, and the last border to the unit of the others
        eps = lambda i, k: S.true(True if S.symbolic else not abs(S.at(v, i) - S.at(c, k)) <= 1e-9 * abs(S.at(c, k)))
        last = lambda i: S.true(S.symbolic or S.same_unit(S.col(a["cut_table"], "low"), S.col(a["cut_table"], "high")) or not abs(S.at(x, i) - S.at(e, m - 1)) <= 1e-9 * S.at(e, m - 1))
        yield "inside", (a["_n"], m - 1), lambda i, k: S.Implies(
            S.And(eps(i, k), last(i), in_bin(S, e, k, S.at(x, i))), S.Iff(S.truth(r[i]) if not S.symbolic else S.at(r, i), compare(S, op, S.at(v, i), S.at(c, k))))
        yield "outside", a["_n"], lambda i: S.Implies(
            S.And(last(i), S.Or(S.lt(S.at(x, i), S.at(e, 0)), S.le(S.at(e, m - 1), S.at(x, i)))), S.Not(S.truth(r[i]) if not S.symbolic else S.at(r, i)))


@contract
class EvaluateByIndex(Contract):
    prop = "P17"
    target = M + ":evaluate_binned_cut_by_index"

    def inputs(self, b):
        n = b.dim("n", 0)
        t, bins, cut = cut_table(b)
        m = b.S.n(bins)
        idx = b.array("bin_index", (n,), kind="i", lo=-3, hi=None if b.symbolic else 8)
        valid = b.array("valid", (n,), kind="b")
        S = b.S
        ok = lambda i: S.And(S.le(0, S.at(idx, i)), S.lt(S.at(idx, i), m - 1))
        if b.symbolic:
            b.require_all(n, lambda i: S.Implies(S.at(valid, i), ok(i)))
        else:
            valid = np.asarray(valid, bool) & (idx >= 0) & (idx < m - 1)
        v = b.quantity("values", (n,), b.unit("deg", "values"), nonneg=True, nan=True)
        return dict(values=v, bin_index=idx, valid=valid, cut_table=t, op=OPS[b.choice("op", list(OPS))], _cut=cut, _n=n)

    def post(self, S, a, r):
        op = next(k for k, f in OPS.items() if f is a["op"])
        v, c = S.to(a["values"], "deg"), S.to(a["_cut"], "deg")
        yield "shape", S.shape_is(r, a["_n"])
        b = lambda x, i: S.at(x, i) if S.symbolic else bool(x[i])
        eps = lambda i, k: S.true(True if S.symbolic else not abs(S.at(v, i) - S.at(c, k)) <= 1e-9 * abs(S.at(c, k)))
        yield "valid", (a["_n"], S.n(c)), lambda i, k: S.Implies(
            S.And(b(a["valid"], i), S.ieq(S.at(a["bin_index"], i), k), eps(i, k)), S.Iff(b(r, i), compare(S, op, S.at(v, i), S.at(c, k))))
        yield "invalid", a["_n"], lambda i: S.Implies(S.Not(b(a["valid"], i)), S.Not(b(r, i)))


@contract
class EvaluateNeedsQTable(Contract):
    prop = "P17"
    target = M + ":evaluate_binned_cut"
    raises = [(ValueError, lambda S, a: S.true(True))]

    def inputs(self, b):
        n = b.dim("n", 0)
        t, bins, cut = cut_table(b)
        kind = b.choice("kind", ["mapping", "array"])
        bad = dict(low=bins[:-1], high=bins[1:], cut=cut) if kind == "mapping" else cut
        return dict(values=b.quantity("values", (n,), "deg", nonneg=True), bin_values=b.quantity("bin_values", (n,), "TeV", pos=True), cut_table=bad, op=operator.le)


# ---------------------------------------------------------------- comparison of cuts
@contract
class CompareCuts(Contract):
    """true exactly if all tables agree in every bin"""
    prop = "P17"
    target = M + ":compare_irf_cuts"

    def inputs(self, b):
        k = b.choice("tables", [2, 3, 1, 0])
        out, raw = [], []
        twin = not b.symbolic and b.choice("mode", ["same", "free"]) == "same"
        for j in range(k):
            if twin and j and b.rng.random() < 0.7:
                q = raw[0]
                q = (q[0].copy(), q[1].copy(), q[2].copy())
                if b.rng.random() < 0.3 and len(q[2]):
                    q[b.rng.randrange(3)][b.rng.randrange(len(q[2]))] *= 2
            else:
                m = b.dim(f"m{j}", 1, None if b.symbolic else 4)
                q = (b.quantity(f"low{j}", (m,), b.unit("TeV", "bins"), pos=True), b.quantity(f"high{j}", (m,), b.unit("TeV", "bins"), pos=True),
                     b.quantity(f"cut{j}", (m,), b.unit("deg", f"cut{j}"), nonneg=True, nan=True))
            raw.append(q)
            if not b.symbolic:
                b.log[f"table{j}"] = str(q)
            out.append(b.table(dict(low=q[0], high=q[1], cut=q[2])))
        return dict(cuts=out, _raw=raw)

    def post(self, S, a, r):
        def same(x, y):
            # in the units of the first
            x, y = [[S.to(c, S.unit(f)) for c, f in zip(t, x)] for t in (x, y)]
            return S.And(S.ieq(S.n(x[0]), S.n(y[0])), *[
                S.all(S.n(x[0]), lambda i, p=p, q=q: S.Or(S.And(S.isnan(S.at(p, i)), S.isnan(S.at(q, i))), S.eq(S.at(p, i), S.at(q, i)))) for p, q in zip(x, y)])
        got = S.truth(r)
        yield "agree", S.Iff(got, S.And(*[same(x, y) for x, y in zip(a["_raw"], a["_raw"][1:])]))
