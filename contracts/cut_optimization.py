"""Contracts of pyirf/cut_optimization.py"""
from engine.harness import Contract, contract
from contracts.common import binned
import operator
import numpy as np

M = "pyirf.cut_optimization"
HIST = ["reco_energy_low", "reco_energy_high", "reco_energy_center"]


# The callees (contracts of P16, P03, P20 and P19) enter as functions of their arguments
def _bins(t, e, names):
    for n, v in zip(names, (e[:-1], e[1:], 0.5 * (e[:-1] + e[1:]))):
        t.add(n, v)
    return t.axis


def _percentile_cut(v, new):
    from engine.tables import QTable
    from engine.units import mkq, Quantity
    from engine.arrays import asarr
    t = QTable()
    nb = _bins(t, v["bins"], ("low", "high", "center"))
    p = asarr(v["percentile"])
    t.add("n_events", new("n_events", (nb,), kind="i", nonneg=True))
    c = new("cut", (nb, *p.axes))
    t.add("cut", mkq(c, v["values"].unit_) if isinstance(v["values"], Quantity) else c)
    return t


def _hist(v, new):
    from engine.tables import QTable
    t = QTable()
    nb = _bins(t, v.get("bins", v.get("reco_energy_bins")), HIST)
    t.add("n", new("n", (nb,), nonneg=True))
    t.add("n_weighted", new("n_weighted", (nb,), nonneg=True))
    return t


OWN = ["n_signal", "n_signal_weighted", "n_background", "n_background_weighted", "significance", "relative_sensitivity"]


def _sensitivity(v, new):
    from engine.tables import QTable
    t = QTable()
    for c in HIST:
        t.add(c, v["signal_hist"].cols[c])
    for c in OWN:
        t.add(c, new(c, (t.axis,), nan=True, inf=c == "relative_sensitivity"))
    return t


def _callees():
    from engine.opaque import callee
    ev = {"events": ["reco_energy", "weight", "particle_type"]}
    bg = {"events": [*ev["events"], "reco_source_fov_offset"], "theta_cuts": ["center", "cut"]}
    mk = {"pyirf.cuts:calculate_percentile_cut": (_percentile_cut, {}), "pyirf.binning:create_histogram_table": (_hist, ev),
          "pyirf.sensitivity:estimate_background": (_hist, bg), "pyirf.sensitivity:calculate_sensitivity": (_sensitivity, {})}
    return {t: callee(t, f, c) for t, (f, c) in mk.items()}


class _Optimize(Contract):
    prop = "P21"
    samples = (25, 150)
    replace = _callees()
    limit = 300

    def base(self, b):
        ns, nb, m = b.dim("n_signal", 1), b.dim("n_background", 0), b.dim("m", 2, None if b.symbolic else 4)
        if not b.symbolic and b.rng.random() < 0.6:
            # enough events for a finite sensitivity of most scanned cuts
            ns, nb, m = (b.rng.randint(*r) for r in ((20, 60), (0, 60), (2, 3)))
            b.log.update(n_signal=ns, n_background=nb, m=m)
        sep = not b.symbolic and b.rng.random() < 0.5
        mult = lambda s: dict(lo=2, hi=6) if not sep else dict(lo=4, hi=6) if s == "signal" else dict(lo=2, hi=5)
        e = b.edges("reco_energy_bins", m, b.unit("TeV", "bins"), pos=True)
        t = []
        score = lambda r: r.choice([0.5, r.random(), r.random()])
        for s, n in (("signal", ns), ("background", nb)):
            c = {"reco_energy": binned(b, s + "_energy", (n,), b.unit("TeV", s), e, pos=True, nan=False),
                 "gh_score": b.array(s + "_gh_score", (n,), gen=score),
                 "weight": b.array(s + "_weight", (n,), nonneg=True, gen=lambda r: r.choice([1.0, r.uniform(0, 100)])),
                 "multiplicity": b.array(s + "_multiplicity", (n,), kind="i", **mult(s))}
            if s == "signal":
                c["theta"] = b.quantity("theta", (n,), b.unit("deg", "theta"), nonneg=True, gen=lambda r: r.choice([r.uniform(0, 0.2), r.uniform(0, 1)]))
            else:
                c["reco_source_fov_offset"] = b.quantity("offset", (n,), b.unit("deg", "offset"), nonneg=True, gen=lambda r: r.uniform(0, 1.2))
            t.append(b.table(c))
        al = b.scalar("alpha", lo=0, strict="lo", gen=lambda r: r.choice([0.2, 1.0, r.uniform(0.05, 2)]))
        lo = b.quantity("fov_offset_min", (), b.unit("deg", "min"), nonneg=True, gen=lambda r: r.choice([0.0, r.uniform(0, 0.3)]))
        hi = b.quantity("fov_offset_max", (), b.unit("deg", "max"), nonneg=True, gen=lambda r: r.uniform(0.7, 1.5))
        S = b.S
        b.require(S.And(S.lt(S.num(lo, "rad"), S.num(hi, "rad")), S.le(S.num(hi, "rad"), S.pi)))
        kw = {}
        if b.choice("options", [False, True]):
            kw["min_significance"] = b.scalar("min_significance", lo=0, strict="lo", gen=lambda r: r.choice([5.0, 3.0, 0.5]))
            kw["min_signal_events"] = b.scalar("min_signal_events", nonneg=True, gen=lambda r: r.choice([10.0, 0.0]))
        return dict(signal=t[0], background=t[1], reco_energy_bins=e, alpha=al, fov_offset_min=lo, fov_offset_max=hi, progress=False, **kw, _kw=kw, _m=m)


@contract
class OptimizeGhCut(_Optimize):
    target = M + ":optimize_gh_cut"

    def inputs(self, b):
        a = self.base(b)
        nc = b.dim("n_cuts", 1, None if b.symbolic else 4)
        S = b.S
        k = b.dim("k", 1, None if b.symbolic else 3)
        ce = b.edges("theta_bins", k + 1, b.unit("TeV", "theta_bins"), pos=True)
        cut = b.quantity("theta_cut", (k,), b.unit("deg", "theta_cut"), nonneg=True, gen=lambda r: r.uniform(0.05, 0.6))
        b.require_all(k, lambda j: S.le(S.at(S.to(cut, "rad"), j), S.pi))
        tc = b.table({"low": ce[:-1], "center": 0.5 * (ce[:-1] + ce[1:]), "high": ce[1:], "cut": cut})
        eff = b.array("gh_cut_efficiencies", (nc,), lo=0, hi=1, gen=lambda r: r.choice([0.1, 0.5, 1.0, r.random()]))
        op = b.choice("op", ["default", "ge", "le", "lt"])
        kw = {} if op == "default" else {"op": getattr(operator, op)}
        return dict(a, gh_cut_efficiencies=eff, theta_cuts=tc, **kw, _nc=nc, _op=getattr(operator, op if op != "default" else "ge"), _tc=tc)

    def post(self, S, a, r):
        g = self.get
        sens, cuts = r
        m, nc, op, bins = a["_m"], a["_nc"], a["_op"], a["reco_energy_bins"]
        nb = m - 1
        sig, bkg = a["signal"], a["background"]
        score = S.col(sig, "gh_score")
        low = op in (operator.le, operator.lt)
        eff = a["gh_cut_efficiencies"]
        # the cuts that keep the given fraction of the signal of each bin (P16)
        scanned = g("pyirf.cuts:calculate_percentile_cut")(
            score, S.col(sig, "reco_energy"), bins=bins, percentile=100 * eff if low else 100 * (1 - eff), fill_value=score.min() if low else score.max())
        passes = g("pyirf.cuts:evaluate_binned_cut")
        theta = passes(S.col(sig, "theta"), S.col(sig, "reco_energy"), a["_tc"], operator.le)

        def table(c):
            """sensitivity table of scanned cut c (P17, P03, P20, P19)"""
            one = scanned.copy()
            one["cut"] = S.row(S.col(scanned, "cut"), 1, c)
            s = sig[theta & passes(score, S.col(sig, "reco_energy"), one, op)]
            b = bkg[passes(S.col(bkg, "gh_score"), S.col(bkg, "reco_energy"), one, op)]
            sh = g("pyirf.binning:create_histogram_table")(s, bins, "reco_energy")
            bh = g("pyirf.sensitivity:estimate_background")(b, reco_energy_bins=bins, theta_cuts=a["_tc"], alpha=a["alpha"], fov_offset_min=a["fov_offset_min"], fov_offset_max=a["fov_offset_max"])
            return g("pyirf.sensitivity:calculate_sensitivity")(sh, bh, alpha=a["alpha"], **a["_kw"])
        table = S.generic(nc, table)
        rel = lambda c, j: S.at(S.col(table(c), "relative_sensitivity"), j)
        best = S.memo(lambda j: S.argmin(nc, lambda c: rel(c, j)))
        cols = ["reco_energy_low", "reco_energy_high", "reco_energy_center", "n_signal", "n_signal_weighted", "n_background", "n_background_weighted", "significance", "relative_sensitivity"]
        yield "columns", S.And(S.cols_are(sens, cols), S.cols_are(cuts, ["low", "center", "high", "cut", "efficiency"]))
        yield "rows", S.And(*[S.shape_is(S.col(sens, c), nb) for c in cols], *[S.shape_is(S.col(cuts, c), nb) for c in ("low", "center", "high", "cut", "efficiency")])
        E = lambda j: S.at(S.to(bins, "TeV"), j)
        for n, f in (("low", E), ("high", lambda j: E(j + 1)), ("center", lambda j: (E(j) + E(j + 1)) / 2)):
            for t, c in ((cuts, n), (sens, "reco_energy_" + n)):
                yield c, nb, lambda j, t=t, c=c, f=f: S.eq(S.at(S.to(S.col(t, c), "TeV"), j), f(j))
        none = lambda j: S.all(nc, lambda c: S.isnan(rel(c, j)))
        w = lambda j: S.ite(none(j), 0, best(j))
        same = lambda x, y: S.Or(S.And(S.isnan(x), S.isnan(y)), S.And(S.Not(S.isnan(x)), S.Not(S.isnan(y)), S.eq(x, y)))
        for c in cols[3:]:
            yield "best " + c, nb, lambda j, c=c: same(S.at(S.col(sens, c), j), S.at(S.col(table(w(j)), c), j))
        yield "cut", nb, lambda j: same(S.at(S.col(cuts, "cut"), j), S.at(S.col(scanned, "cut"), j, w(j)))
        yield "efficiency", nb, lambda j: S.eq(S.at(S.col(cuts, "efficiency"), j), S.at(eff, w(j)))


@contract
class OptimizeCuts(_Optimize):
    """scans multiplicity, theta and gamma / hadron cuts.  The number of scanned values is three
    for one of them and one for the others in the proof and free in the generated cases; their values are free in both."""
    target = M + ":optimize_cuts"
    assumes = ("optimize_cuts: proved for three scanned values of one cut variable and one of the others; longer scans only by generated cases",)
    samples = (120, 800)

    def inputs(self, b):
        a = self.base(b)
        size = lambda s: b.choice("n_" + s, [1, 2]) if b.symbolic else b.choice("n_" + s, [1, 2, 3, 4, 4] if s == "multiplicity" else [1, 2, 3])
        nm, ng, nt = ((b.choice("sizes", [(3, 1, 1), (1, 3, 1), (1, 1, 3)])) if b.symbolic else (size("multiplicity"), size("gh"), size("theta")))
        frac = lambda r: r.choice([0.1, 0.5, 1.0, r.random()])
        mult = b.array("multiplicity_cuts", (nm,), kind="i", lo=2, hi=5)
        if not b.symbolic and b.rng.random() < 0.5:
            mult.sort()
        gh = b.array("gh_cut_efficiencies", (ng,), lo=0, hi=1, gen=frac)
        th = b.array("theta_cut_efficiencies", (nt,), lo=0, hi=1, gen=frac)
        kw = {}
        if b.choice("limits", [True, False]):
            kw = dict(theta_min_value=b.quantity("theta_min_value", (), b.unit("deg", "tmin"), nonneg=True, gen=lambda r: r.uniform(0, 0.1)),
                      theta_max_value=b.quantity("theta_max_value", (), b.unit("deg", "tmax"), nonneg=True, gen=lambda r: r.uniform(0.1, 0.5)))
        return dict(a, multiplicity_cuts=mult, gh_cut_efficiencies=gh, theta_cut_efficiencies=th, **kw, _sizes=(nm, ng, nt),
                    _tmin=kw.get("theta_min_value", b.const(0.02, "deg")), _tmax=kw.get("theta_max_value", b.const(0.3, "deg")))

    def post(self, S, a, r):
        g = self.get
        sens, mcut, tcut, gcut = r
        m, bins = a["_m"], a["reco_energy_bins"]
        nb = m - 1
        sig, bkg = a["signal"], a["background"]
        nm, ng, nt = a["_sizes"]
        pc, ev = g("pyirf.cuts:calculate_percentile_cut"), g("pyirf.cuts:evaluate_binned_cut")
        e = lambda t, v, cut, op: ev(S.col(t, v), S.col(t, "reco_energy"), cut, op)
        one = lambda t, k: (lambda c: (c.__setitem__("cut", S.row(S.col(t, "cut"), 1, k)), c)[1])(t.copy())
        tmin, tmax = a["_tmin"], a["_tmax"]
        combos, T, GH, TH = [], {}, {}, {}
        for i in range(nm):
            cut = a["multiplicity_cuts"][i]
            ms, mb = S.col(sig, "multiplicity") >= cut, S.col(bkg, "multiplicity") >= cut
            GH[i] = pc(S.col(sig, "gh_score")[ms], S.col(sig, "reco_energy")[ms], bins=bins, fill_value=S.col(sig, "gh_score").max(), percentile=100 * (1 - a["gh_cut_efficiencies"]))
            TH[i] = pc(S.col(sig, "theta")[ms], S.col(sig, "reco_energy")[ms], bins=bins, fill_value=tmax, min_value=tmin, max_value=tmax, percentile=100 * a["theta_cut_efficiencies"])
            for j in range(ng):
                for k in range(nt):
                    gc, tc = one(GH[i], j), one(TH[i], k)
                    s = sig[e(sig, "gh_score", gc, operator.ge) & e(sig, "theta", tc, operator.le) & ms]
                    q = bkg[e(bkg, "gh_score", gc, operator.ge) & mb]
                    sh = g("pyirf.binning:create_histogram_table")(s, bins, "reco_energy")
                    bh = g("pyirf.sensitivity:estimate_background")(q, reco_energy_bins=bins, theta_cuts=tc, alpha=a["alpha"], fov_offset_min=a["fov_offset_min"], fov_offset_max=a["fov_offset_max"])
                    combos.append((i, j, k))
                    T[i, j, k] = g("pyirf.sensitivity:calculate_sensitivity")(sh, bh, alpha=a["alpha"], **a["_kw"])
        base = ["low", "center", "high", "cut"]
        yield "columns", S.And(S.cols_are(sens, HIST + OWN), S.cols_are(mcut, base), S.cols_are(tcut, base + ["efficiency"]), S.cols_are(gcut, base + ["efficiency"]))
        yield "rows", S.And(*[S.shape_is(S.col(t, c), nb) for t, cs in ((sens, HIST + OWN), (mcut, base), (tcut, base + ["efficiency"]), (gcut, base + ["efficiency"])) for c in cs])
        E = lambda j: S.at(S.to(bins, "TeV"), j)
        for n, f in (("low", E), ("high", lambda j: E(j + 1)), ("center", lambda j: (E(j) + E(j + 1)) / 2)):
            for t, c in ((sens, "reco_energy_" + n), (mcut, n), (tcut, n), (gcut, n)):
                yield c, nb, lambda j, t=t, c=c, f=f: S.eq(S.at(S.to(S.col(t, c), "TeV"), j), f(j))
        at = lambda t, c, j: S.at(S.col(t, c), j)
        same = lambda x, y: S.Or(S.And(S.isnan(x), S.isnan(y)), S.And(S.Not(S.isnan(x)), S.Not(S.isnan(y)), S.eq(x, y)))
        rel = lambda c, j: at(T[c], "relative_sensitivity", j)
        deg_ = lambda q: S.to(q, "deg")

        def is_best(c, j):
            i, p, q = c
            v = rel(c, j)
            yield S.And(*[S.Or(S.isnan(rel(d, j)), S.And(S.Not(S.isnan(v)), S.le(v, rel(d, j)))) for d in combos])
            yield from (same(at(sens, n, j), at(T[c], n, j)) for n in OWN)
            yield same(at(mcut, "cut", j), S.at(a["multiplicity_cuts"], i))
            yield same(at(gcut, "cut", j), S.at(S.col(GH[i], "cut"), j, p))
            yield same(S.at(deg_(S.col(tcut, "cut")), j), S.at(deg_(S.col(TH[i], "cut")), j, q))
            yield same(at(gcut, "efficiency", j), S.at(a["gh_cut_efficiencies"], p))
            yield same(at(tcut, "efficiency", j), S.at(a["theta_cut_efficiencies"], q))
        yield "one of the best cuts", nb, lambda j: S.Or(*[S.And(*is_best(c, j)) for c in combos])
