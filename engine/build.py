"""Input builders: symbolic inputs, random / adversarial genuine inputs, and genuine
inputs read off a counter-model."""
import math
import random
from fractions import Fraction

from .terms import *
from . import terms as T
from . import arrays as A
from . import units as U
from .arrays import Arr, Num, ax, num
from .ctx import ctx


class Reject(Exception):
    """generated input does not satisfy the precondition"""


def _incr(fn):
    fn.pair_axioms.append(lambda a, b: [Implies(Lt(a[0], b[0]), Lt(app(fn, *a), app(fn, *b)))] if len(a) == 1 else [])


DT = {"O": "O", "complex": "c"}


class SymB:
    symbolic = True

    def __init__(self, S):
        self.S = S
        self.buffers = []
        self.meta = {}

    def dim(self, name, lo=0, hi=None):
        v = Poly.atom(Var(name, "I", pos=lo >= 1, nonneg=lo >= 0))
        ctx().add(Le(lo, v))
        ctx().add(Lt(v, 2**40))      # sizes of arrays that fit in memory
        if hi is not None:
            ctx().add(Le(v, hi))
        return v

    def unit(self, base, name):
        """a unit of the dimension of ``base`` with an arbitrary positive scale"""
        base = U.as_unit(base)
        return U.UnitBase(base.dims, Poly.atom(Var(f"unit_{name}", "R", pos=True)), f"<{name}>")

    def choice(self, name, options):
        for i, o in enumerate(options[:-1]):
            f = Fn(f"choice_{name}_{i}", 0, "B")
            if ctx().fork(BApp(f)):
                return o
        return options[-1]

    def _fn(self, name, nd, kind, lo, hi, pos, nonneg, strict):
        sort = {"f": "R", "i": "I", "b": "B"}[kind]
        f = Fn._all.get((name, nd, sort, pos, nonneg, str(lo), str(hi), strict)) if False else None
        key = (name, nd, sort, pos, nonneg, lo, hi, strict)
        f = _fns.get(key)
        if f is None:
            if sort != "B" and lo is not None and not isinstance(lo, Poly):
                pos = pos or lo > 0 or (lo == 0 and strict in ("lo", "both"))
                nonneg = nonneg or lo >= 0
            f = Fn(name, nd, sort, pos=pos, nonneg=nonneg or pos)
            if sort != "B":
                if lo is not None:
                    f.axioms.append(lambda *a: [Lt(P(lo), app(f, *a)) if strict in ("lo", "both") else Le(P(lo), app(f, *a))])
                if hi is not None:
                    f.axioms.append(lambda *a: [Lt(app(f, *a), P(hi)) if strict in ("hi", "both") else Le(app(f, *a), P(hi))])
            _fns[key] = f
        return f

    def _elem(self, name, nd, kind, lo=None, hi=None, pos=False, nonneg=False, strict=None, nan=False, inf=False):
        f = self._fn(name, nd, kind, lo, hi, pos, nonneg, strict)
        fl = {}
        for k, on in (("nan", nan), ("pinf", inf), ("ninf", inf and not pos and not nonneg)):
            if on:
                fl[k] = self._fn(f"{k}_{name}", nd, "b", None, None, False, False, None)

        def fn(idx):
            t = tuple(x for pt in idx for x in pt)
            if kind == "b":
                return BApp(f, *t)
            v = app(f, *t)
            if not fl:
                return Num(v, int=kind == "i")
            n = BApp(fl["nan"], *t) if "nan" in fl else FALSE
            p = And(Not(n), BApp(fl["pinf"], *t)) if "pinf" in fl else FALSE
            m = And(Not(n), Not(p), BApp(fl["ninf"], *t)) if "ninf" in fl else FALSE
            return Num(v, n, p, m)
        return fn

    def array(self, name, dims=(), kind="f", near=None, gen=None, opt=None, **k):
        dims = dims if isinstance(dims, (list, tuple)) else (dims,)
        a = Arr([ax(d) for d in dims], self._elem(name, len(dims), kind, **k), kind)
        self.buffers.append((name, a.buf))
        return a

    def scalar(self, name, kind="f", **k):
        return self.array(name, (), kind, **k)

    def with_dtype(self, x, dtype):
        """the array as one of another dtype ("O", complex)"""
        d = A.SDtype(DT[dtype])

        class Odd(Arr):
            dtype = d
        x.__class__ = Odd
        return x

    def quantity(self, name, dims=(), unit=None, **k):
        """unit: a UnitBase of this builder"""
        return U.mkq(self.array(name, dims, **k), U.as_unit(unit))

    def edges(self, name, n, unit=None, pos=False, nonneg=False, **k):
        """n strictly increasing edges"""
        a = self.array(name, (n,), pos=pos, nonneg=nonneg, **k)
        f = _fns[(name, 1, "R", pos, nonneg, k.get("lo"), k.get("hi"), k.get("strict"))]
        if not f.pair_axioms:
            _incr(f)
        return U.mkq(a, unit) if unit is not None else a

    def with_inf_ends(self, e):
        """edges with the first and the last one replaced by -inf / +inf"""
        u_ = e.unit_
        a = U.plain(e) if u_ is not None else e
        n = a.axes[0].size
        rd = a.reader()

        def fn(i):
            lo, hi = Eq(i[0][0], 0), Eq(i[0][0], n - 1)
            v = num(rd(i))
            return Num(v.p, v.nan, And(hi, Not(lo)), lo)
        r = Arr(a.axes, fn, "f")
        self.buffers.append(("infinite_edges", r.buf))
        return U.mkq(r, u_) if u_ is not None else r

    def strings(self, name, n):
        from .symstr import SymStr
        f = self._fn(name, 1, "i", None, None, False, False, None)
        a = Arr((ax(n),), lambda i: SymStr(app(f, i[0][0])), "s")
        self.buffers.append((name, a.buf))
        return a

    def code(self, x):
        """integer code of the string element"""
        return x.parts[0]

    def table(self, cols, qtable=True, meta=None):
        from .tables import Table, QTable
        t = (QTable if qtable else Table)()
        for n, v in cols.items():
            t.add(n, v, copy=False)
        if meta:
            t.meta.update(meta)
        return t

    def require_ascending(self, name, x):
        """precondition: the values of the array of this name do not descend along its last axis"""
        fn = next(f for k, f in _fns.items() if k[0] == name and k[1] == len(x.axes) and k[2] == "R")
        if not fn.pair_axioms:
            fn.pair_axioms.append(lambda a, b: [Implies(And(Le(a[-1], b[-1]), *[Eq(p, q) for p, q in zip(a[:-1], b[:-1])]), Le(app(fn, *a), app(fn, *b)))])

    def require(self, cond):
        ctx().add(BC(cond))

    def require_all(self, dims, f):
        """precondition: forall idx: f(idx)"""
        from .logic import Forall
        dims = dims if isinstance(dims, (list, tuple)) else [dims]
        ds = [P(d) for d in dims]

        def body(*js):
            for j, d in zip(js, ds):
                ctx().var_facts[j.atoms()[0]] = And(Le(0, j), Lt(j, d))
            return Implies(And(*[And(Le(0, j), Lt(j, d)) for j, d in zip(js, ds)]), BC(f(*js)))
        ctx().add(Forall(len(ds), body))

    def quick(self, *a):
        return True

    # conversions of bare python values
    def const(self, x, unit=None):
        a = A.asarr(x)
        return U.mkq(a, U.as_unit(unit)) if unit is not None else a

    def pyfloat(self, x):
        return x

    def func(self, name, domain_unit=None, range_unit=None, pos=False, nonneg=False, scalar_arg=False):
        """an arbitrary elementwise real function of one argument"""
        f = self._fn(name, 1, "f", None, None, pos, nonneg, None)
        f.attrs["argsorts"] = ("R",)

        def call(x):
            v = A.asarr(x)
            if domain_unit is not None:
                v = U.to_unit(v, domain_unit)
            r = A.unary(v, lambda e: Num(app(f, A.num(e).p), A.num(e).nan), "f")
            return U.mkq(r, range_unit) if range_unit is not None else r
        return call


    def significance(self, name):
        """an arbitrary function f(n_on, n_off, alpha) that does not decrease with n_on"""
        f = self._fn(name, 3, "f", None, None, False, False, None)
        if not f.pair_axioms:
            f.attrs["argsorts"] = ("R", "R", "R")
            f.pair_axioms.append(lambda a, b: [Implies(And(Le(a[0], b[0]), Eq(a[1], b[1]), Eq(a[2], b[2])), Le(app(f, *a), app(f, *b)))])

        def call(n_on, n_off, alpha):
            arrs = [U.plain(A.asarr(v)) for v in (n_on, n_off, alpha)]
            axes = A.broadcast([v.axes for v in arrs])
            rds = [A.bc_reader(v, axes) for v in arrs]

            def fn(i):
                es = [A.num(rd(i)) for rd in rds]
                return Num(app3(f, [e.p for e in es]), Or(*[Not(e.fin) for e in es]))
            return A.Arr(axes, fn, "f")
        return call


    def relative(self, name):
        """an arbitrary elementwise function of the counts and options, a number, nan or infinite;
        nan for nan counts and ValueError for negative ones (the contract of relative_sensitivity
        as far as its callers use it)"""
        pos = ["n_on", "n_off", "alpha", "min_significance", "min_signal_events", "min_excess_over_background", "significance_function"]
        default = dict(min_significance=5, min_signal_events=10, min_excess_over_background=0.05, significance_function=None)
        tags = {}

        def call(*a, **k):
            v = dict(default, **dict(zip(pos, a)), **k)
            if set(v) != set(pos):
                raise TypeError("arguments of relative_sensitivity")
            tag = tags.setdefault(id(v["significance_function"]), len(tags))
            arrs = [U.plain(A.asarr(v[p])) for p in pos[:-1]]
            axes = A.broadcast([x.axes for x in arrs])
            rds = [A.bc_reader(x, axes) for x in arrs]
            f, fn, fi = (self._fn(f"{name}{tag}{s}", 6, sort, None, None, False, False, None) for s, sort in (("", "f"), ("_nan", "b"), ("_inf", "b")))
            for q in (f, fn, fi):
                q.attrs["argsorts"] = ("R",) * 6
            from . import npshim
            z = [npshim.any(x < 0) for x in arrs[:2]]
            if bool(z[0]) or bool(z[1]):
                raise ValueError("counts must not be negative")

            def el(i):
                es = [A.num(rd(i)) for rd in rds]
                ps = [e.p for e in es]
                nan = Or(*[e.nan for e in es], BApp(fn, *ps))
                return Num(app3(f, ps), nan, And(Not(nan), BApp(fi, *ps)))
            return A.Arr(axes, el, "f")
        return call


def app3(f, args, done=()):
    if not args:
        return app(f, *done)
    return A.app_cases(lambda q: app3(f, args[1:], done + (q,)), args[0])


_fns = {}

UNITS = {"E": ["TeV", "GeV", "MeV"], "L": ["m", "cm", "km"], "T": ["s", "min", "h"], "A": ["deg", "rad"]}


class ConB:
    symbolic = False

    def __init__(self, S, rng):
        import numpy as np
        import astropy.units as u
        self.S, self.rng, self.np, self.u = S, rng, np, u
        self.inputs = {}
        self.pool = {}
        self.log = {}
        self.size_hint = rng.choice([1, 2, 3, 4, 6, 12])
        self.units_mode = rng.random() < 0.6

    def _model(self, name):
        return None

    def dim(self, name, lo=0, hi=None):
        r = self.rng
        n = lo + r.choice([0, 0, 1, 1, 2, 3, self.size_hint, r.randint(0, 3 * self.size_hint)])
        if hi is not None:
            n = min(n, hi)
        self.log[name] = n
        return n

    def unit(self, base, name):
        base = self.u.Unit(base) if not hasattr(base, "dims") else self.u.Unit(_real_unit(base))
        out = None
        fam = [["TeV", "GeV", "MeV"], ["m", "cm", "km"], ["s", "min", "h"], ["deg", "rad"], ["sr", "deg2"]]
        res = self.u.dimensionless_unscaled
        for b, p in zip(base.bases, base.powers):
            opts = next((f for f in fam if self.u.Unit(f[0]).is_equivalent(b)), None)
            c = b if opts is None or self.units_mode else self.u.Unit(self.rng.choice(opts))
            res = res * c ** p
        res = self.u.Unit(res)
        self.log["unit_" + name] = str(res)
        return res

    def choice(self, name, options):
        i = self.rng.randrange(len(options))
        self.log["choice_" + name] = i
        return options[i]

    def _values(self, name, dims, kind, lo, hi, pos, nonneg, strict, nan, inf, near, gen):
        np, r = self.np, self.rng
        n = 1
        for d in dims:
            n *= int(d)
        out = []
        mode = r.random()
        for _ in range(n):
            out.append(self._value(kind, lo, hi, pos, nonneg, strict, near, gen, mode))
        a = np.array(out, dtype={"f": float, "i": np.int64, "b": bool}[kind]).reshape([int(d) for d in dims])
        if kind == "f" and (nan or inf) and n and r.random() < 0.4:
            flat = a.reshape(-1)
            for i in range(n):
                if r.random() < 0.25:
                    flat[i] = r.choice(([np.nan] if nan else []) + ([np.inf] + ([-np.inf] if not (pos or nonneg) else []) if inf else []))
        return a

    def _value(self, kind, lo, hi, pos, nonneg, strict, near, gen, mode):
        r = self.rng
        if kind == "b":
            return r.random() < (0.5 if mode < 0.7 else 0.9 if mode < 0.85 else 0.1)
        if gen is not None:
            return gen(r)
        if kind == "i":
            a = lo if lo is not None else (1 if pos else 0 if nonneg else -20)
            b = hi if hi is not None else (a + (3 if mode < 0.3 else 25 if mode < 0.8 else 1000))
            return r.randint(int(math.ceil(a)), int(math.floor(b)))
        if near is not None:
            pool = [float(x) for x in self.np.ravel(near) if math.isfinite(x)]
            if pool and r.random() < 0.4:
                v = r.choice(pool)
                d = r.random()
                if d < 0.2:
                    v = float(self.np.nextafter(v, math.inf))
                elif d < 0.4:
                    v = float(self.np.nextafter(v, -math.inf))
                if self._ok(v, lo, hi, pos, nonneg, strict):
                    return v
            if pool:
                a, b = min(pool), max(pool)
                w = (b - a) or 1.0
                for _ in range(20):
                    v = a - 0.2 * w + 1.4 * w * r.random()
                    if self._ok(v, lo, hi, pos, nonneg, strict):
                        return v
        for _ in range(200):
            if lo is not None and hi is not None:
                lo_, hi_ = float(lo), float(hi)
                c = r.random()
                v = lo_ if c < 0.06 else hi_ if c < 0.12 else lo_ + (hi_ - lo_) * r.random()
                if c > 0.7:
                    v = lo_ + (hi_ - lo_) * r.randint(0, 16) / 16
            elif pos or (lo is not None and lo > 0):
                v = 10 ** r.uniform(-2, 2) if mode < 0.6 else r.randint(1, 64) / 8
            elif nonneg or lo is not None:
                base = float(lo or 0)
                v = base + (0.0 if r.random() < 0.15 else r.choice([r.random() * 10, r.randint(0, 40) / 4, 10 ** r.uniform(-3, 3)]))
            else:
                v = r.choice([r.uniform(-5, 5), r.randint(-20, 20) / 4, r.uniform(-1, 1)])
                if hi is not None:
                    v = float(hi) - abs(v)
            if self._ok(v, lo, hi, pos, nonneg, strict):
                return v
        raise Reject("value")

    def _ok(self, v, lo, hi, pos, nonneg, strict):
        if lo is not None and (v < lo or (v == lo and strict in ("lo", "both"))):
            return False
        if hi is not None and (v > hi or (v == hi and strict in ("hi", "both"))):
            return False
        if pos and v <= 0:
            return False
        if nonneg and v < 0:
            return False
        return True

    def array(self, name, dims=(), kind="f", near=None, gen=None, lo=None, hi=None, pos=False, nonneg=False, strict=None, nan=False, inf=False, opt=None):
        dims = dims if isinstance(dims, (list, tuple)) else (dims,)
        if near is not None:
            near = near.value if isinstance(near, self.u.Quantity) else near
        a = self._values(name, dims, kind, lo, hi, pos, nonneg, strict, nan, inf, near, gen)
        self.inputs[name] = a
        self.log[name] = a.tolist()
        return a

    def with_dtype(self, x, dtype):
        return x.astype(dtype)

    def scalar(self, name, kind="f", **k):
        v = self.array(name, (), kind, **k)
        return v.item()

    def quantity(self, name, dims=(), unit=None, **k):
        return self.u.Quantity(self.array(name, dims, **k), unit, copy=False)

    def edges(self, name, n, unit=None, pos=False, nonneg=False, lo=None, hi=None, strict=None, **k):
        r, np = self.rng, self.np
        n = int(n)
        c = r.random()
        if lo is not None and hi is not None:
            for _ in range(20):
                v = sorted(set(self._value("f", lo, hi, pos, nonneg, strict, None, None, c) for _ in range(n)))
                if len(v) == n:
                    break
                v = list(float(lo) + (float(hi) - float(lo)) * (np.arange(n) + (1 if strict else 0)) / (n + 1))
        elif c < 0.4:
            # regular dyadic grid
            step = r.choice([0.25, 0.5, 1.0, 2.0])
            start = (step * r.randint(1, 4)) if pos else (0.0 if nonneg or r.random() < 0.3 else step * r.randint(-6, 4))
            v = [start + step * i for i in range(n)]
        elif c < 0.7 and (pos or nonneg):
            b = r.choice([2.0, 1.5, 10 ** 0.2])
            s = r.choice([0.01, 0.125, 1.0])
            v = [s * b ** i for i in range(n)]
        else:
            v, x = [], (r.uniform(0.05, 2) if pos else (0.0 if nonneg else r.uniform(-5, 2)))
            for _ in range(n):
                v.append(x)
                x += r.choice([r.uniform(0.01, 0.3), r.uniform(0.5, 3)])
        if lo is not None and hi is None:
            v = [x - min(v) + float(lo) + (0.125 if strict else 0) for x in v]
        if hi is not None and lo is None:
            v = [x - max(v) + float(hi) - (0.125 if strict else 0) for x in v]
        a = np.array(v, dtype=float)
        if len(a) != n or (n > 1 and not np.all(np.diff(a) > 0)):
            raise Reject("edges")
        self.inputs[name] = a
        self.log[name] = a.tolist()
        return self.u.Quantity(a, unit, copy=False) if unit is not None else a

    def with_inf_ends(self, e):
        e = e.copy()
        v = e.value if hasattr(e, "unit") else e
        if len(v):
            v[-1] = self.np.inf
            v[0] = -self.np.inf
        return e

    NAMES = ["gamma", "proton", "electron", "helium", "weighted_p", "1", "µ"]

    def strings(self, name, n):
        pick = self.rng.sample(self.NAMES, self.rng.randint(1, 4))
        a = self.np.array([self.rng.choice(pick) for _ in range(int(n))], dtype="U12")
        self.inputs[name] = a
        self.log[name] = a.tolist()
        return a

    def code(self, x):
        return str(x)

    def table(self, cols, qtable=True, meta=None):
        from astropy.table import Table, QTable
        t = (QTable if qtable else Table)(cols, copy=False)
        if meta:
            t.meta.update(meta)
        return t

    def require_ascending(self, name, x):
        self.require((self.S.np.diff(x, axis=-1) >= 0).all())

    def require(self, cond):
        if not bool(cond):
            raise Reject("require")

    def require_all(self, dims, f):
        if not self.S.all(dims, f):
            raise Reject("require_all")

    def const(self, x, unit=None):
        return self.u.Quantity(x, unit) if unit is not None else x

    def func(self, name, domain_unit=None, range_unit=None, pos=False, nonneg=False, scalar_arg=False):
        np, r = self.np, self.rng
        a, b, c = r.uniform(0.2, 3), r.uniform(-1.5, 1.5), r.uniform(0.3, 2)
        self.log[name] = (a, b, c)

        def call(x):
            if domain_unit is not None:
                x = self.u.Quantity(x).to_value(domain_unit)
            v = a * np.exp(np.sin(b * np.asarray(x, float)) * c) + (0 if pos or nonneg else -a)
            return v * range_unit if range_unit is not None else v
        return call


    def significance(self, name):
        np = self.np
        k = self.choice(name, ["li_ma", "simple", "poisson"])
        if k == "li_ma":
            from pyirf.statistics import li_ma_significance
            return li_ma_significance
        if k == "simple":
            return lambda n_on, n_off, alpha: (n_on - alpha * n_off) / np.sqrt(alpha * n_off + 1)
        return lambda n_on, n_off, alpha: 2 * (np.sqrt(np.maximum(n_on, 0) + 1) - np.sqrt(alpha * n_off + 1))


def _real_unit(b):
    """astropy unit string of a base unit (concrete scales only)"""
    for n, v in U.NAMED.items():
        if v.dims == b.dims and v.scale == b.scale and n:
            return n
    # product of powers
    s = []
    for k, p in b.dims.items():
        s.append(f"{ {'E': 'TeV', 'L': 'm', 'T': 's', 'A': 'rad'}[k]}{int(p.cval())}")
    return " ".join(s)


class ModelB(ConB):
    """inputs read off a solver model; what the model leaves open is filled with the
    random generator"""

    def __init__(self, S, rng, model, tr, z3):
        super().__init__(S, rng)
        self.m, self.tr, self.z3 = model, tr, z3
        self.units_mode = True

    def _eval(self, t):
        v = self.m.eval(t, model_completion=True)
        if self.z3.is_int_value(v):
            return v.as_long()
        if self.z3.is_rational_value(v):
            return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
        if self.z3.is_algebraic_value(v):
            a = v.approx(20)
            return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
        if self.z3.is_true(v):
            return True
        if self.z3.is_false(v):
            return False
        raise Reject("model value")

    def dim(self, name, lo=0, hi=None):
        v = self._eval(self.z3.Int(name))
        if v < lo:
            v = lo
        if v > 60:
            raise Reject("large dimension in model")
        self.log[name] = v
        return v

    def choice(self, name, options):
        for i, o in enumerate(options[:-1]):
            if self._eval(self.z3.Bool(f"choice_{name}_{i}")) is True:
                self.log["choice_" + name] = i
                return o
        self.log["choice_" + name] = len(options) - 1
        return options[-1]

    def _decl(self, name, nd):
        for d in self.m.decls():
            if d.name().split('@')[0] == name and d.arity() == nd:
                return d
        return None

    def _values(self, name, dims, kind, lo, hi, pos, nonneg, strict, nan, inf, near, gen):
        np = self.np
        a = super()._values(name, dims, kind, lo, hi, pos, nonneg, strict, False, False, near, gen)
        d = self._decl(name, len(dims))
        flags = [(self._decl(f"{k}_{name}", len(dims)), v) for k, v in (("ninf", -np.inf), ("pinf", np.inf), ("nan", np.nan))]
        for idx in np.ndindex(*a.shape):
            z = [self.z3.IntVal(i) for i in idx]
            if d is not None:
                v = self._eval(d(*z))
                if kind == "f":
                    v = float(v)
                    if not math.isfinite(v) or abs(v) > 1e100:
                        raise Reject("model value")
                a[idx] = v
            for fd, fv in flags:
                if fd is not None and kind == "f" and self._eval(fd(*z)) is True:
                    a[idx] = fv
        return a

    def edges(self, name, n, unit=None, pos=False, nonneg=False, **k):
        d = self._decl(name, 1)
        if d is None:
            return super().edges(name, n, unit=unit, pos=pos, nonneg=nonneg, **k)
        a = self.np.array([float(self._eval(d(self.z3.IntVal(i)))) for i in range(int(n))])
        if len(a) > 1 and not self.np.all(self.np.diff(a) > 0):
            raise Reject("edges in model")
        if pos and len(a) and a.min() <= 0 or nonneg and len(a) and a.min() < 0:
            raise Reject("edges in model")
        self.inputs[name] = a
        self.log[name] = a.tolist()
        return self.u.Quantity(a, unit, copy=False) if unit is not None else a

    def strings(self, name, n):
        d = self._decl(name, 1)
        if d is None:
            return super().strings(name, n)
        a = self.np.array([self.NAMES[self._eval(d(self.z3.IntVal(i))) % len(self.NAMES)] for i in range(int(n))], dtype="U12")
        self.inputs[name] = a
        self.log[name] = a.tolist()
        return a
