"""Contracts of pyirf/statistics.py"""
from engine.harness import Contract, contract
import math
import numpy as np


def li_ma(S, on, off, alpha):
    """equation 17 of Li & Ma (1983), 0 below the expected background, with x log x -> 0"""
    xlx = lambda x, y: S.ite(S.ieq(x, 0) if not S.symbolic else S.eq(x, 0), 0, x * S.log(y))
    tot = on + off
    s = xlx(on, (1 + alpha) / alpha * on / tot) + xlx(off, (1 + alpha) * off / tot)
    return s


class _LiMa(Contract):
    prop = "P09"
    target = "pyirf.statistics:li_ma_significance"

    def check(self, S, v, on, off, alpha):
        on, off, alpha = (on, off, alpha) if S.symbolic else map(np.float64, (on, off, alpha))
        below = S.lt(on, alpha * off)
        if S.symbolic:
            yield "zero below background", S.Implies(below, S.eq(v, 0))
            ts = 2 * li_ma(S, on, off, alpha)
            # max(ts, 0): rounding may give a tiny negative statistic
            yield "formula", S.Or(below, S.And(S.le(0, v), S.eq(v * v, S.ite(S.lt(ts, 0), 0, ts))))
        else:
            yield "not nan", not math.isnan(v)
            if below:
                yield "zero below background", v == 0
            else:
                with_np = li_ma(S, on, off, alpha)
                want = math.sqrt(max(0.0, 2 * with_np))
                # cancellation of the two logarithms limits the accuracy of the squared value
                yield "formula", abs(v * v - want * want) <= 1e-9 * max(1.0, on, off, want * want)


def _counts(b, name, dims, alpha=None):
    return b.array(name, dims, nonneg=True, gen=lambda r: r.choice([0.0, float(r.randrange(0, 12)), float(r.randrange(0, 2000)), r.uniform(0, 50), 10 ** r.uniform(0, 8)]))


@contract
class LiMaArray(_LiMa):
    """arrays of counts, element by element"""

    def inputs(self, b):
        n = b.dim("n", 0)
        return dict(n_on=_counts(b, "n_on", (n,)), n_off=_counts(b, "n_off", (n,)), alpha=alpha(b))

    def post(self, S, a, r):
        n = S.n(a["n_on"])
        yield "shape", S.shape_is(r, n)
        al = S.num(a["alpha"])
        if S.symbolic:
            for j, nm in enumerate(("zero below background", "formula")):
                yield nm, n, lambda i: list(self.check(S, S.at(r, i), S.at(a["n_on"], i), S.at(a["n_off"], i), al))[j][1]
        else:
            yield "values", n, lambda i: all(c for _, c in self.check(S, S.at(r, i), S.at(a["n_on"], i), S.at(a["n_off"], i), al))


def alpha(b):
    return b.scalar("alpha", lo=0, strict="lo", gen=lambda r: r.choice([0.2, 0.1, 1.0, 0.5, r.uniform(0.01, 2)]))


@contract
class LiMaScalar(_LiMa):
    """numbers in, a number out; counts exactly at the expectation give 0, not nan"""

    def inputs(self, b):
        al = alpha(b)
        if b.symbolic:
            on, off = b.scalar("n_on", nonneg=True), b.scalar("n_off", nonneg=True)
        else:
            off = b.scalar("n_off", gen=lambda r: float(r.randrange(0, 60)))
            on = b.scalar("n_on", gen=lambda r: r.choice([off * al, off * al, float(r.randrange(0, 40))]))
        return dict(n_on=on, n_off=off, alpha=al)

    def post(self, S, a, r):
        yield "scalar", S.is_scalar(r)
        yield from self.check(S, S.num(r), S.num(a["n_on"]), S.num(a["n_off"]), S.num(a["alpha"]))


@contract
class LiMaBroadcast(_LiMa):
    """one n_on against many n_off is refused or broadcast: the default ratio is 0.2"""

    def inputs(self, b):
        n = b.dim("n", 0)
        return dict(n_on=_counts(b, "n_on", (n,)), n_off=_counts(b, "n_off", (n,)))

    post = lambda self, S, a, r: LiMaArray.post(self, S, dict(a, alpha=0.2), r)


@contract
class LiMaIntegers(_LiMa):
    """integer counts of any size are not mangled"""

    def inputs(self, b):
        n = b.dim("n", 0)
        g = lambda r: r.choice([0, r.randrange(0, 10), r.randrange(0, 10**6), r.randrange(0, 10**12)])
        return dict(n_on=b.array("n_on", (n,), kind="i", lo=0, hi=10**12, gen=g), n_off=b.array("n_off", (n,), kind="i", lo=0, hi=10**12, gen=g), alpha=alpha(b))

    def post(self, S, a, r):
        n = S.n(a["n_on"])
        yield "shape", S.shape_is(r, n)
        if S.symbolic:
            yield from LiMaArray.post(self, S, a, r)
        else:
            al = a["alpha"]
            yield "values", n, lambda i: all(c for _, c in self.check(S, *(np.float64(x) for x in (S.at(r, i), S.at(a["n_on"], i), S.at(a["n_off"], i), al))))


@contract
class LiMaMonotone(_LiMa):
    """more counts in the on region never make the detection less significant"""

    def inputs(self, b):
        g = lambda r: r.choice([float(r.randrange(1, 30)), r.uniform(0.01, 1e4)])
        x, y = b.scalar("on", pos=True, gen=g), b.scalar("on2", pos=True, gen=g)
        if not b.symbolic:
            x, y = min(x, y), max(x, y)
        b.require(b.S.le(b.S.num(x), b.S.num(y)))
        off, zero = b.scalar("off", pos=True, gen=g), b.choice("zero", ["none", "off", "on", "both"])
        return dict(alpha=alpha(b), _on=0.0 if zero in ("on", "both") else x, _on2=y, _off=0.0 if zero in ("off", "both") else off, _zero=zero)

    def call(self, f, a):
        return f(a["_on"], a["_off"], a["alpha"]), f(a["_on2"], a["_off"], a["alpha"])

    def post(self, S, a, r):
        x, y, m, al = (S.num(a[k]) for k in ("_on", "_on2", "_off", "alpha"))
        if a["_zero"] == "none":
            S.hint_log(S.le(al * m, x), [([1 + al, x], [al, x + m], y - x, 1)], 0)
            S.hint_log(S.true(True), [([y, x + m], [x, y + m], y, 1), ([y + m], [x + m], m, -1)], 0)
        yield "monotone", S.approx_le(S.num(r[0]), S.num(r[1])) if S.symbolic else float(r[0]) <= float(r[1]) + 1e-6
