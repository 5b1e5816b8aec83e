"""Contracts of pyirf/binning.py"""
from engine.harness import Contract, contract
import numpy as np

INT_MIN, INT_MAX = -2**63, 2**63 - 1


def bin_of(S, n_edges, edge, x):
    """index of the half-open bin [edge_k, edge_k+1) holding x; UNDER / OVER otherwise"""
    d = S.digit(n_edges, edge, x)
    return S.ite(S.Or(S.isnan(x), S.le(n_edges, d)), INT_MAX, S.ite(S.lt(d, 1), INT_MIN, d - 1))


@contract
class BinIndices(Contract):
    """every value belongs to exactly the half-open bin that holds it"""
    prop = "P01"
    target = "pyirf.binning:calculate_bin_indices"

    def inputs(self, b):
        n = b.dim("n")
        m = b.dim("m", 1)
        with_unit = b.choice("q", [True, False])
        ud = b.unit("TeV", "data") if with_unit else None
        ub = b.unit("TeV", "bins") if with_unit else None
        e = b.edges("edges", m, ub)
        infs = b.choice("infinite_edges", ["none", "both"])
        if infs == "both":
            e = b.with_inf_ends(e)
        x = b.quantity("data", (n,), ud, nan=True, inf=True, near=e) if with_unit else b.array("data", (n,), nan=True, inf=True, near=e)
        return dict(data=x, bins=e, _ud=ud)

    def post(self, S, a, r):
        idx, valid = r
        n, m = S.n(a["data"]), S.n(a["bins"])
        x = S.to(a["data"], a["_ud"])
        e = S.to(a["bins"], a["_ud"])
        E = lambda i: S.at(e, i)
        yield "shape", S.And(S.shape_is(idx, n), S.shape_is(valid, n))
        d = lambda i: S.at(idx, i)
        yield "range", n, lambda i: S.Or(S.ieq(d(i), INT_MIN), S.ieq(d(i), INT_MAX), S.And(S.le(0, d(i)), S.lt(d(i), m - 1)))
        yield "valid-iff-in-a-bin", n, lambda i: S.Iff(S.at(valid, i), S.And(S.le(0, d(i)), S.lt(d(i), m - 1)))
        yield "in-its-bin", (n, m - 1), lambda i, k: S.Iff(S.ieq(d(i), k), S.And(S.le(E(k), S.at(x, i)), S.lt(S.at(x, i), E(k + 1))))
        yield "underflow", n, lambda i: S.Iff(S.ieq(d(i), INT_MIN), S.lt(S.at(x, i), E(0)))
        yield "overflow", n, lambda i: S.Iff(S.ieq(d(i), INT_MAX), S.Or(S.isnan(S.at(x, i)), S.le(E(m - 1), S.at(x, i))))


@contract
class BinIndicesUnitMismatch(Contract):
    prop = "P01"
    target = "pyirf.binning:calculate_bin_indices"
    samples = (20, 100)
    raises = [(TypeError, lambda S, a: S.true(True))]

    def inputs(self, b):
        u = b.unit("TeV", "data")
        return dict(data=b.quantity("data", (b.dim("n"),), u), bins=b.edges("edges", b.dim("m", 2)))


@contract
class BinCenter(Contract):
    prop = "P02"
    target = "pyirf.binning:bin_center"
    samples = (40, 300)

    def inputs(self, b):
        m = b.dim("m", 1)
        u = b.choice("q", [b.unit("TeV", "e"), None])
        return dict(edges=b.edges("edges", m, u), _u=u)

    def post(self, S, a, r):
        m = S.n(a["edges"])
        yield "shape", S.shape_is(r, m - 1)
        yield "unit", S.true(S.has_unit(r) == (a["_u"] is not None))
        e, c = S.to(a["edges"], a["_u"]), S.to(r, a["_u"])
        yield "midpoint", m - 1, lambda i: S.eq(2 * S.at(c, i), S.at(e, i) + S.at(e, i + 1))
        yield "inside", m - 1, lambda i: S.And(S.lt(S.at(e, i), S.at(c, i)), S.lt(S.at(c, i), S.at(e, i + 1)))


@contract
class SplitBins(Contract):
    """edges -> (lower, upper)"""
    prop = "P02"
    target = "pyirf.binning:split_bin_lo_hi"
    samples = (40, 300)

    def inputs(self, b):
        u = b.choice("q", [b.unit("TeV", "e"), None])
        two = b.choice("rows", [False, True])
        dims = (b.dim("k"), b.dim("m", 1)) if two else (b.dim("m", 1),)
        return dict(bins=b.quantity("bins", dims, u) if u is not None else b.array("bins", dims), _u=u)

    def post(self, S, a, r):
        lo, hi = (S.to(x, a["_u"]) for x in r)
        e = S.to(a["bins"], a["_u"])
        yield "unit", S.And(*[S.true(S.has_unit(x) == (a["_u"] is not None)) for x in r])
        if S.ndim(e) == 1:
            m = S.n(e)
            yield "shape", S.And(S.shape_is(lo, m - 1), S.shape_is(hi, m - 1))
            yield "lower", m - 1, lambda i: S.eq(S.at(lo, i), S.at(e, i))
            yield "upper", m - 1, lambda i: S.eq(S.at(hi, i), S.at(e, i + 1))
        else:
            k, m = S.n(e), S.n(e, 1)
            yield "shape", S.And(S.shape_is(lo, k, m - 1), S.shape_is(hi, k, m - 1))
            yield "lower", (k, m - 1), lambda r_, i: S.eq(S.at(lo, r_, i), S.at(e, r_, i))
            yield "upper", (k, m - 1), lambda r_, i: S.eq(S.at(hi, r_, i), S.at(e, r_, i + 1))


def close(S, x, y, rtol=1e-5, atol=1e-8):
    """numpy's definition of closeness"""
    return S.le(S.abs(x - y), atol + rtol * S.abs(y))


class _Join(Contract):
    prop = "P02"
    target = "pyirf.binning:join_bin_lo_hi"
    two = False

    def inputs(self, b):
        u = None
        if self.with_unit:
            u = b.unit("TeV", "e")
        m = b.dim("m", 1)
        lo = b.edges("lo", m) if not self.with_unit else b.edges("lo", m, u)
        mode = b.choice("mode", ["free", "near"])
        if b.symbolic or mode == "free":
            hi = b.edges("hi", m) if not self.with_unit else b.edges("hi", m, u)
        else:
            # almost or exactly matching edges
            np = b.np
            e = np.append(lo.value if self.with_unit else lo, (lo.value if self.with_unit else lo)[-1] + 1.0)
            d = b.rng.choice([0.0, 0.0, 1e-7, 3e-5, 1e-3])
            e = e[1:].copy()
            if len(e):
                e[b.rng.randrange(len(e))] += d * abs(e[0])
            hi = e * u if self.with_unit else e
            b.log["hi"] = e.tolist()
        return dict(bin_lo=lo, bin_hi=hi, _u=u)

    def match(S, a):
        lo, hi = S.to(a["bin_lo"], a["_u"]), S.to(a["bin_hi"], a["_u"])
        m = S.n(lo)
        return S.all(m - 1, lambda i: close(S, S.at(lo, i + 1), S.at(hi, i), atol=_Join.atol(a)))

    def atol(a):
        return 1e-8 if a["_u"] is None else 0

    raises = [(ValueError, lambda S, a: S.Not(_Join.match(S, a)))]

    def post(self, S, a, r):
        m = S.n(a["bin_lo"])
        lo, hi, e = (S.to(x, a["_u"]) for x in (a["bin_lo"], a["bin_hi"], r))
        yield "unit", S.true(S.has_unit(r) == (a["_u"] is not None))
        yield "shape", S.shape_is(r, m + 1)
        yield "lower-edges", m, lambda i: S.eq(S.at(e, i), S.at(lo, i))
        yield "last-edge", S.eq(S.at(e, m), S.at(hi, m - 1))


@contract
class JoinBins(_Join):
    with_unit = False


@contract
class JoinBinsQuantity(_Join):
    """atol of allclose does not apply to quantities with a unit"""
    with_unit = True


@contract
class JoinSplit(Contract):
    """splitting edges and joining them again gives the edges back"""
    prop = "P02"
    target = "pyirf.binning:join_bin_lo_hi"
    covers = ("pyirf.binning:split_bin_lo_hi",)
    samples = (40, 300)

    def inputs(self, b):
        m = b.dim("m", 2)
        u = b.choice("q", [b.unit("TeV", "e"), None])
        two = b.choice("rows", [False, True])
        e = b.edges("bins", m, u)
        if two:
            k = b.dim("k", 1)
            e = b.quantity("grid", (k, m), u) if u is not None else b.array("grid", (k, m))
        return dict(_e=e, _u=u)

    def call(self, f, a):
        split = resolve_sibling(f, "split_bin_lo_hi")
        return f(*split(a["_e"]))

    def post(self, S, a, r):
        e, q = S.to(a["_e"], a["_u"]), S.to(r, a["_u"])
        if S.ndim(e) == 1:
            yield "shape", S.shape_is(q, S.n(e))
            yield "same-edges", S.n(e), lambda i: S.eq(S.at(q, i), S.at(e, i))
        else:
            yield "shape", S.shape_is(q, S.n(e), S.n(e, 1))
            yield "same-edges", (S.n(e), S.n(e, 1)), lambda i, j: S.eq(S.at(q, i, j), S.at(e, i, j))


def resolve_sibling(f, name):
    """another function of the same module (genuine or under the engine)"""
    return f.__globals__[name]


@contract
class AddOverflow(Contract):
    """bins are completed by one bin below and one above, never duplicated"""
    prop = "P02"
    target = "pyirf.binning:add_overflow_bins"
    samples = (60, 400)

    def inputs(self, b):
        u = b.choice("q", [b.unit("TeV", "e"), None])
        positive = b.choice("positive", [True, False])
        e = b.edges("bins", b.dim("m", 2), u, nonneg=positive)
        if not positive and b.choice("infinite", [False, True]):
            e = b.with_inf_ends(e)
        return dict(bins=e, positive=positive, _u=u)

    def post(self, S, a, r):
        e, q = S.to(a["bins"], a["_u"]), S.to(r, a["_u"])
        m, n = S.n(e), S.n(q)
        low = 0 if a["positive"] else -S.inf
        first = S.lt(low, S.at(e, 0))
        last = S.lt(S.at(e, m - 1), S.inf)
        off = S.ite(first, 1, 0)
        yield "unit", S.true(S.has_unit(r) == (a["_u"] is not None))
        yield "size", S.ieq(n, m + off + S.ite(last, 1, 0))
        yield "first", S.eq(S.at(q, 0), low)
        yield "last", S.eq(S.at(q, n - 1), S.inf)
        yield "kept", m, lambda i: S.eq(S.at(q, i + off), S.at(e, i))


@contract
class BinsPerDecade(Contract):
    """equidistant edges in log10, starting at the lower limit"""
    prop = "P02"
    target = "pyirf.binning:create_bins_per_decade"
    samples = (60, 400)

    def inputs(self, b):
        u1, u2 = b.unit("TeV", "lo"), b.unit("TeV", "hi")
        lo = b.quantity("e_min", (), u1, pos=True)
        hi = b.quantity("e_max", (), u2, pos=True)
        k = b.scalar("per_decade", kind="i", lo=1, hi=40)
        return dict(e_min=lo, e_max=hi, bins_per_decade=k, _u=u1)

    def post(self, S, a, r):
        q = S.to(r, a["_u"])
        n = S.n(q)
        k = S.num(a["bins_per_decade"])
        lo, hi = S.num(a["e_min"], a["_u"]), S.num(a["e_max"], a["_u"])
        ll, lh = S.log10(lo), S.log10(hi)
        yield "unit", S.same_unit(r, a["e_min"])
        yield "positive", n, lambda i: S.lt(0, S.at(q, i))
        yield "first", n, lambda i: S.Implies(S.ieq(i, 0), S.eq(S.at(q, i), lo))
        yield "steps", n, lambda i: S.eq(S.log10(S.at(q, i)), ll + i / k, scale=1)
        eps = 1e-4 / k
        yield "not-beyond", n, lambda i: S.le(ll + i / k, lh + eps * 1.0001)
        yield "complete", S.lt(lh - 1e-9, ll + n / k)


def in_hist_bin(S, E, m, k, x):
    """numpy's histogram: half-open bins, the last one closed; m edges"""
    return S.And(S.le(E(k), x), S.Or(S.lt(x, E(k + 1)), S.And(S.ieq(k, m - 2), S.le(x, E(k + 1)))))


class _HistTable(Contract):
    prop = "P03"
    target = "pyirf.binning:create_histogram_table"
    weights = types = False
    samples = (100, 800)

    def inputs(self, b):
        n = b.dim("n", 0)
        m = b.dim("m", 2)
        ue, ub = b.unit("TeV", "events"), b.unit("TeV", "bins")
        e = b.edges("bins", m, ub, pos=True)
        key = b.choice("key", ["reco_energy", "true_energy"])
        x = b.quantity("energy", (n,), ue, nonneg=True, nan=True, near=e)
        cols = {key: x}
        if self.weights:
            cols["weight"] = b.array("weight", (n,))
        if self.types:
            cols["particle_type"] = b.strings("particle_type", n)
        ev = b.table(cols)
        kw = {} if key == "reco_energy" else {"key": key}
        return dict(events=ev, bins=e, _ub=ub, _key=key, _x=x, _n=n, _m=m, _kw=kw)

    def call(self, f, a):
        return f(a["events"], a["bins"], **a["_kw"])

    def post(self, S, a, r):
        n, m, key = a["_n"], a["_m"], a["_key"]
        E0 = S.to(a["bins"], a["_ub"])
        E = lambda k: S.at(E0, k)
        x0 = S.to(a["_x"], a["_ub"])
        x = lambda i: S.at(x0, i)
        yield "columns", S.cols_are(r, [key + "_low", key + "_high", key + "_center", "n", "n_weighted"], extra=True)
        lo, hi, c = (S.to(S.col(r, key + s), a["_ub"]) for s in ("_low", "_high", "_center"))
        N, W = S.col(r, "n"), S.col(r, "n_weighted")
        yield "shape", S.And(*[S.shape_is(q, m - 1) for q in (lo, hi, c, N, W)])
        yield "low", m - 1, lambda k: S.eq(S.at(lo, k), E(k))
        yield "high", m - 1, lambda k: S.eq(S.at(hi, k), E(k + 1))
        yield "center", m - 1, lambda k: S.eq(2 * S.at(c, k), E(k) + E(k + 1))
        inb = lambda i, k: in_hist_bin(S, E, m, k, x(i))
        yield "counts", m - 1, lambda k: S.ieq(S.at(N, k), S.count(n, lambda i: inb(i, k)))
        if self.weights:
            w = S.col(a["events"], "weight")
            yield "weighted", m - 1, lambda k: S.eq(S.at(W, k), S.sum(n, lambda i: S.at(w, i), lambda i: inb(i, k)), **self.tol(S, w))
        else:
            yield "weighted", m - 1, lambda k: S.ieq(S.at(W, k), S.at(N, k))
        if self.types:
            t = S.col(a["events"], "particle_type")
            fam = lambda i, s="": S.fam(r, "n_", S.at(t, i), s)
            yield "column-per-type", n, lambda i: S.And(fam(i)[0], fam(i, "_weighted")[0])
            fa = lambda i, k, s="": S.fam_at(r, "n_", S.at(t, i), s, k)
            same = lambda j, i: S.streq(S.at(t, j), S.at(t, i))
            yield "counts-per-type", (n, m - 1), lambda i, k: S.ieq(fa(i, k), S.count(n, lambda j: S.And(same(j, i), inb(j, k))))
            if self.weights:
                yield "weighted-per-type", (n, m - 1), lambda i, k: S.eq(
                    fa(i, k, "_weighted"), S.sum(n, lambda j: S.at(w, j), lambda j: S.And(same(j, i), inb(j, k))), **self.tol(S, w))
            else:
                yield "weighted-per-type", (n, m - 1), lambda i, k: S.ieq(fa(i, k, "_weighted"), fa(i, k))

    def tol(self, S, w):
        if S.symbolic:
            return {}
        return dict(scale=float(S.np.abs(S.np.asarray(w)).sum()))


@contract
class HistTable(_HistTable):
    pass


@contract
class HistTableWeighted(_HistTable):
    weights = True


@contract
class HistTableTypes(_HistTable):
    types = True


@contract
class HistTableWeightedTypes(_HistTable):
    weights = types = True


class _Resample(Contract):
    """rebinning keeps the content: whatever lies between two common edges stays between them"""
    prop = "P04"
    target = "pyirf.binning:resample_histogram1d"
    samples = (80, 600)
    nd = 1

    def inputs(self, b):
        mo, mn = b.dim("old", 4), b.dim("new", 2)
        q = b.choice("quantity", [True, False])
        uo, un = (b.unit("TeV", "old"), b.unit("TeV", "new")) if q else (None, None)
        old = b.edges("old_edges", mo, uo)
        mode = b.choice("edges", ["free", "common"])
        if b.symbolic or mode == "free":
            new = b.edges("new_edges", mn, un)
        else:
            o = old.to_value(un) if q else old
            k = sorted(b.rng.sample(range(len(o)), min(len(o), int(mn))))
            if b.rng.random() < 0.6 and len(k) > 1:
                k[0], k[-1] = 0, len(o) - 1
            new = o[k] * un if q else o[k].copy()
            mn = len(k)
            b.require(mn > 1)
            b.log["new_edges"] = list(map(float, o[k]))
        ud = b.choice("data_quantity", [b.unit("s", "data"), None])
        dims = (mo - 1,)
        axis = 0
        if self.nd == 2:
            axis = b.choice("axis", [0, 1])
            o = b.dim("other", 1)
            dims = (mo - 1, o) if axis == 0 else (o, mo - 1)
        sign = {"nonneg": b.choice("sign", [True, False])}
        d = b.quantity("data", dims, ud, **sign) if ud is not None else b.array("data", dims, **sign)
        kw = {"axis": axis} if self.nd == 2 else {}
        return dict(data=d, old_edges=old, new_edges=new, _kw=kw, _axis=axis, _ud=ud, _un=un, _uo=uo, _mo=mo, _mn=mn)

    def call(self, f, a):
        return f(a["data"], a["old_edges"], a["new_edges"], **a["_kw"])

    def post(self, S, a, r):
        mo, mn, ax = a["_mo"], a["_mn"], a["_axis"]
        d, v = S.to(a["data"], a["_ud"]), S.to(r, a["_ud"])
        eo, en = S.to(a["old_edges"], a["_un"]), S.to(a["new_edges"], a["_un"])
        yield "unit", S.true(S.has_unit(r) == (a["_ud"] is not None))
        if self.nd == 1:
            D, V = (lambda k, o: S.at(d, k)), (lambda k, o: S.at(v, k))
            no = 1
            yield "shape", S.shape_is(v, mn - 1)
        else:
            no = S.n(d, 1 - ax)
            D = (lambda k, o: S.at(d, k, o)) if ax == 0 else (lambda k, o: S.at(d, o, k))
            V = (lambda k, o: S.at(v, k, o)) if ax == 0 else (lambda k, o: S.at(v, o, k))
            yield "shape", S.shape_is(v, mn - 1, no) if ax == 0 else S.shape_is(v, no, mn - 1)
        same = (lambda x, y: S.eq(x, y)) if S.symbolic else (lambda x, y: x == y)
        below = lambda p, o: S.sum(p, lambda k: D(k, o))
        total = lambda o: below(mo - 1, o)
        size = lambda o: 0 if S.symbolic else sum(abs(D(k, o)) for k in range(mo - 1))
        # the two borders of new bin j are old edges p <= q
        tol = {} if S.symbolic else dict(rtol=1e-7)
        yield "between-common-edges", (no, mn - 1, mo, mo), lambda o, j, p, q: S.Implies(
            S.And(S.le(p, q), same(S.at(en, j), S.at(eo, p)), same(S.at(en, j + 1), S.at(eo, q))),
            S.eq(V(j, o), below(q, o) - below(p, o), scale=size(o), **tol))
        yield "covering-bin", (no, mn - 1), lambda o, j: S.Implies(
            S.And(S.lt(S.at(en, j), S.at(eo, 0)), S.lt(S.at(eo, mo - 1), S.at(en, j + 1))), S.eq(V(j, o), total(o), scale=size(o), **tol))
        yield "outside", (no, mn - 1), lambda o, j: S.Implies(
            S.Or(S.lt(S.at(en, j + 1), S.at(eo, 0)), S.lt(S.at(eo, mo - 1), S.at(en, j))), S.eq(V(j, o), 0, scale=size(o)))
        yield "upper-part", (no, mn - 1, mo), lambda o, j, p: S.Implies(
            S.And(same(S.at(en, j), S.at(eo, p)), S.lt(S.at(eo, mo - 1), S.at(en, j + 1))),
            S.eq(V(j, o), total(o) - below(p, o), scale=size(o), **tol))
        yield "lower-part", (no, mn - 1, mo), lambda o, j, p: S.Implies(
            S.And(S.lt(S.at(en, j), S.at(eo, 0)), same(S.at(en, j + 1), S.at(eo, p))),
            S.eq(V(j, o), below(p, o), scale=size(o), **tol))


@contract
class Resample1D(_Resample):
    pass


@contract
class Resample2D(_Resample):
    nd = 2
