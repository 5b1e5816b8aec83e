"""Input generators and specification helpers shared by the contracts"""
import math
import numpy as np


def binned(b, name, dims, unit, edges, **k):
    """a quantity to be sorted into ``edges``; the genuine values lie inside, outside and (in the
    same unit) exactly on the edges, but never within rounding of one"""
    k.setdefault("nan", True)
    if b.symbolic:
        return b.quantity(name, dims, unit, **k)
    has = hasattr(edges, "unit")
    same = has and str(edges.unit) == str(unit)
    ev = np.asarray(edges.to_value(unit) if has else edges, float)
    ev = ev[np.isfinite(ev)]
    lo, hi = (float(ev[0]), float(ev[-1])) if len(ev) else (0.1, 10.0)
    pos = k.get("pos") or k.get("nonneg")

    def gen(r):
        for _ in range(50):
            c = r.random()
            if c < 0.2 and (same or not has) and len(ev):
                return float(r.choice(list(ev)))
            if c < 0.35:
                v = lo - abs(hi - lo) * r.random() * 0.3
                v = lo * r.uniform(0.3, 1) if pos and v <= 0 else v
            elif c < 0.5:
                v = hi + abs(hi - lo) * r.random() * 0.3
            elif len(ev) > 1:
                j = r.randrange(len(ev) - 1)
                v = float(ev[j] + (ev[j + 1] - ev[j]) * r.random())
            else:
                v = r.uniform(lo, hi)
            if pos and v < 0 or k.get("pos") and v <= 0:
                continue
            if all(abs(v - e) > 1e-9 * max(abs(v), abs(e)) for e in ev):
                return v
        return float(ev[0]) * 0.5 if pos else lo - 1.0
    k = {x: y for x, y in k.items() if x not in ("pos", "nonneg")}
    return b.quantity(name, dims, unit, gen=gen, **k)


def binned_array(b, name, dims, edges, **k):
    k.setdefault("nan", True)
    if b.symbolic:
        return b.array(name, dims, **k)
    q = binned(b, name, dims, b.u.dimensionless_unscaled, edges, **k)
    return np.asarray(q.value)


def hist_bin(S, E, m, k, x):
    """numpy's histogram: half-open bins, the last one closed; m edges"""
    return S.And(S.le(E(k), x), S.Or(S.lt(x, E(k + 1)), S.And(S.ieq(k, m - 2), S.le(x, E(k + 1)))))


class Axis:
    """edges and event values in a common unit"""

    def __init__(self, S, edges, values, unit=None):
        self.S = S
        self.e = S.to(edges, unit)
        self.x = None if values is None else S.to(values, unit)
        self.m = S.n(edges)
        self.nb = self.m - 1

    def lo(self, k): return self.S.at(self.e, k)
    def hi(self, k): return self.S.at(self.e, k + 1)
    def width(self, k): return self.hi(k) - self.lo(k)

    def inside(self, i, k):
        return hist_bin(self.S, lambda j: self.S.at(self.e, j), self.m, k, self.S.at(self.x, i))

    def anywhere(self, i):
        """inside the range of the edges"""
        x = self.S.at(self.x, i)
        return self.S.And(self.S.le(self.S.at(self.e, 0), x), self.S.le(x, self.S.at(self.e, self.m - 1)))


class Cells:
    """number (or summed weight) of the events in the cell (k0, k1, ...); every axis is a function
    ``inside(i, k)``.  Concrete runs tabulate the definition once."""

    def __init__(self, S, n, axes, sizes, weight=None):
        self.S, self.n, self.axes, self.sizes, self.weight = S, n, axes, sizes, weight
        self.memo = None

    def __call__(self, *k):
        S = self.S
        if S.symbolic:
            g = lambda i: S.And(*[a(i, j) for a, j in zip(self.axes, k)])
            return S.count(self.n, g) if self.weight is None else S.sum(self.n, self.weight, g)
        if self.memo is None:
            self.memo = {}
            import itertools
            for i in range(int(self.n)):
                hit = [[j for j in range(int(m)) if S.truth(a(i, j))] for a, m in zip(self.axes, self.sizes)]
                for c in itertools.product(*hit):
                    self.memo[c] = self.memo.get(c, 0) + (1 if self.weight is None else self.weight(i))
        return self.memo.get(tuple(int(j) for j in k), 0)
