"""Units and quantities: symbolic counterpart of astropy.units.

A unit is a product of powers of base dimensions and a positive scale, which may be a
symbolic constant (a unit that is only known to be, say, an energy unit)."""
from fractions import Fraction

from .terms import *
from . import terms as T
from .ctx import ctx
from . import arrays as A
from .arrays import Arr, Num, num, asarr, arr0, raw_binop, n_mul, n_div, PI


class UnitsError(ValueError):
    pass


class UnitConversionError(UnitsError, TypeError):
    pass


class UnitTypeError(UnitsError, TypeError):
    pass


class UnitBase:
    def __init__(self, dims=None, scale=ONE, name=None):
        self.dims = {k: P(v) for k, v in (dims or {}).items() if P(v).m}
        self.scale = scale
        self.name_ = name

    # physics
    def is_equivalent(self, o, equivalencies=()):
        if o is None:
            raise TypeError("None is not a valid Unit")
        o = as_unit(o)
        return self.dims == o.dims

    @property
    def dimless(self):
        return not self.dims

    @property
    def physical_type(self):
        return tuple(sorted((k, v.key) for k, v in self.dims.items()))

    def factor(self, o):
        if not self.is_equivalent(o):
            raise UnitConversionError(f"'{self}' and '{o}' are not convertible")
        return self.scale / o.scale

    def to(self, o, value=1.0):
        return asarr(value) * arr0(Num(self.factor(as_unit(o))))

    def _mul(self, o, s):
        d = dict(self.dims)
        for k, v in o.dims.items():
            d[k] = d.get(k, ZERO) + v * s
        nm = None
        return UnitBase(d, self.scale * o.scale if s == 1 else self.scale / o.scale, nm)

    def __mul__(self, o):
        if isinstance(o, UnitBase):
            return self._mul(o, 1)
        if isinstance(o, str):
            return self._mul(as_unit(o), 1)
        return quantity_binop("mul", o, self)

    def __rmul__(self, o):
        if isinstance(o, str):
            return as_unit(o)._mul(self, 1)
        if isinstance(o, (list, tuple)) and any(isinstance(x, Quantity) for x in o):
            return Quantity(o, self)
        return quantity_binop("mul", o, self)

    def __truediv__(self, o):
        if isinstance(o, UnitBase):
            return self._mul(o, -1)
        return quantity_binop("div", self, o)

    def __rtruediv__(self, o):
        return quantity_binop("div", o, self)

    def __pow__(self, e):
        e = A.num(asarr(e).scalar()).p if not isinstance(e, (int, Fraction)) else P(e)
        return UnitBase({k: v * e for k, v in self.dims.items()}, A.t_pow(self.scale, e))

    def __eq__(self, o):
        if o is None:
            return False
        try:
            o = as_unit(o)
        except Exception:
            return False
        return self.dims == o.dims and self.scale == o.scale

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((tuple(sorted((k, v.key) for k, v in self.dims.items())), self.scale))

    def __repr__(self):
        if self.name_:
            return self.name_
        s = " ".join(f"{k}{v!r}" for k, v in self.dims.items())
        return f"Unit({self.scale!r} {s})"

    __str__ = __repr__

    def to_string(self, *a, **k):
        return repr(self)


Unit_ = UnitBase
one = UnitBase({}, ONE, "")
TeV = UnitBase({"E": 1}, ONE, "TeV")
GeV = UnitBase({"E": 1}, P(Fraction(1, 1000)), "GeV")
MeV = UnitBase({"E": 1}, P(Fraction(1, 10**6)), "MeV")
m = UnitBase({"L": 1}, ONE, "m")
cm = UnitBase({"L": 1}, P(Fraction(1, 100)), "cm")
km = UnitBase({"L": 1}, P(1000), "km")
s = UnitBase({"T": 1}, ONE, "s")
minute = UnitBase({"T": 1}, P(60), "min")
hour = UnitBase({"T": 1}, P(3600), "h")
day = UnitBase({"T": 1}, P(86400), "d")
rad = UnitBase({"A": 1}, ONE, "rad")
deg = UnitBase({"A": 1}, PI * Fraction(1, 180), "deg")
sr = UnitBase({"A": 2}, ONE, "sr")
NAMED = {"": one, "TeV": TeV, "GeV": GeV, "MeV": MeV, "m": m, "cm": cm, "km": km, "s": s, "min": minute, "h": hour,
         "hour": hour, "d": day, "day": day, "rad": rad, "radian": rad, "deg": deg, "degree": deg, "sr": sr,
         "m2": m ** 2, "m^2": m ** 2, "cm2": cm ** 2, "m**2": m ** 2}


def as_unit(x):
    if isinstance(x, UnitBase):
        return x
    if isinstance(x, Quantity):
        v = num(x.scalar())
        return UnitBase(x.unit_.dims, x.unit_.scale * v.p)
    if x is None:
        raise TypeError("None is not a valid Unit")
    if isinstance(x, str):
        k = x.strip()
        if k in NAMED:
            return NAMED[k]
        r = one
        sign = 1
        for tok in k.replace("/", " / ").split():
            if tok == "/":
                sign = -1
                continue
            if tok == "1":
                continue
            base = tok.rstrip("-0123456789^*")
            ex = tok[len(base):].lstrip("^*")
            if base not in NAMED:
                raise A.Unsupported(f"unit {x!r}")
            r = r * NAMED[base] ** (sign * int(ex or 1))
            sign = 1
        return r
    raise TypeError(f"{x!r} is not a unit")


def from_real(un):
    """genuine astropy unit -> unit of this engine"""
    r = UnitBase({}, P(Fraction(repr(float(un.scale)))))
    for b, p in zip(un.bases, un.powers):
        if str(b) not in NAMED:
            raise A.Unsupported(f"unit {un}")
        r = r * NAMED[str(b)] ** Fraction(p)
    return r


def Unit(x="", **k):
    return as_unit(x)


class Quantity(Arr):
    def __new__(cls, value=None, unit=None, dtype=None, copy=True, **kw):
        if value is None:
            return object.__new__(cls)
        return make_quantity(value, unit, copy, cls)

    def __init__(self, *a, **k):
        pass

    @classmethod
    def make(cls, proto, axes, fn, kind):
        if kind == "b":
            return Arr(axes, fn, kind)
        return mkq(Arr(axes, fn, kind), proto.unit_)

    def _copy_attrs(self, r):
        r.unit_ = self.unit_

    # attributes
    @property
    def unit(self):
        return self.unit_

    @unit.setter
    def unit(self, v):
        raise AttributeError("can't set attribute 'unit'")

    @property
    def value(self):
        return plain(self)

    @property
    def isscalar(self):
        return not self.axes

    @property
    def si(self):
        return self.to(UnitBase(self.unit_.dims, ONE))

    @property
    def deg(self):
        return self.to_value(deg)

    @property
    def rad(self):
        return self.to_value(rad)

    def to(self, unit, equivalencies=None, copy=True):
        unit = as_unit(unit)
        f = self.unit_.factor(unit)
        rd = self.reader()
        if f == ONE:
            return mkq(Arr(self.axes, rd, self.kind if self.kind == "f" else "f"), unit)
        c = Num(f)
        return mkq(Arr(self.axes, lambda i: n_mul(num(rd(i)), c), "f"), unit)

    def to_value(self, unit=None, equivalencies=None):
        if unit is None:
            return plain(self)
        unit = as_unit(unit)
        f = self.unit_.factor(unit)
        if f == ONE:
            return plain(self)
        return plain(self.to(unit))

    def decompose(self):
        return self.to(UnitBase(self.unit_.dims, ONE))

    def to_string(self, *a, **k):
        return "<q>"

    def info_unit(self):
        return self.unit_

    def wrap_at(self, angle, inplace=False):
        w = num(to_unit(angle, self.unit_).scalar())
        full = num(Num(recip(self.unit_.scale) * PI * 2))
        rd = self.reader()

        def fn(i):
            x = num(rd(i))
            # the representative in [w - full, w)
            k = A.n_floor(n_div(A.n_sub(x, A.n_sub(w, full)), full))
            return A.n_sub(x, n_mul(k, full))
        return mkq(Arr(self.axes, fn, "f"), self.unit_)

    def _coerce_value(self, v):
        if isinstance(v, Quantity):
            return plain(v.to(self.unit_))
        a = asarr(v)
        if self.unit_.dimless:
            return a * arr0(Num(recip(self.unit_.scale)))
        if arbitrary_unit(a):
            return a
        raise UnitConversionError("only dimensionless quantities can be assigned to a quantity with this unit")

    def __int__(self):
        if not self.unit_.dimless:
            raise TypeError("only dimensionless scalar quantities can be converted to Python scalars")
        return Arr.__int__(self.to(one))

    def __float__(self):
        if not self.unit_.dimless:
            raise TypeError("only dimensionless scalar quantities can be converted to Python scalars")
        return Arr.__float__(self.to(one))

    def __index__(self):
        raise TypeError("only integer dimensionless scalar quantities can be converted to a Python index")

    def __bool__(self):
        return True

    def _inplace(self, op, o):
        r = A.binop(op, self, o)
        if op in ("mul", "div", "pow"):
            if not isinstance(r, Quantity):
                raise UnitTypeError("unit")
            if r.unit_ != self.unit_:
                # astropy changes the unit of the object in place
                self.unit_ = r.unit_
            rr = plain(r)
        else:
            rr = plain(r.to(self.unit_))
        if len(rr.axes) != len(self.axes):
            raise ValueError("non-broadcastable output operand")
        plain(self)[...] = rr
        return self

    def __ilshift__(self, unit):
        raise A.Unsupported("in-place unit change")

    def __lshift__(self, unit):
        return self.to(unit)

    def item(self, *a):
        return self.reshape(()) if self.axes else self


def mkq(arr, unit):
    r = object.__new__(Quantity)
    Arr.__init__(r, arr.axes, buf=arr.buf, view=arr.view)
    r.unit_ = unit
    return r


def plain(q):
    """the value array (a view of the same memory)"""
    if isinstance(q, Quantity):
        return Arr(q.axes, buf=q.buf, view=q.view)
    return q


def to_unit(x, unit):
    """plain array of the value of x in the given unit (no unit = dimensionless)"""
    if isinstance(x, Quantity):
        return x.to_value(unit)
    a = asarr(x)
    if isinstance(a, Quantity):
        return a.to_value(unit)
    if unit.dimless:
        return a if unit.scale == ONE else a * arr0(Num(recip(unit.scale)))
    if arbitrary_unit(a):
        return a
    raise UnitConversionError("can only apply the function to dimensionless quantities or with equal units")


def arbitrary_unit(a):
    """astropy: 0, inf and nan are accepted for any unit"""
    if a.axes and not all(x.is1 for x in a.axes):
        return False
    e = a.scalar()
    if not isinstance(e, Num):
        return False
    if e.nan is TRUE or e.pinf is TRUE or e.ninf is TRUE:
        return True
    return not e.flagged and not e.p.m


def unit_of(x):
    return x.unit_ if isinstance(x, Quantity) else None


def make_quantity(value, unit=None, copy=True, cls=None):
    if unit is not None:
        unit = as_unit(unit)
    if isinstance(value, Quantity):
        if unit is None or unit == value.unit_:
            return mkq(value.copy(), value.unit_) if copy else value
        return value.to(unit)
    if isinstance(value, UnitBase):
        return quantity_binop("mul", 1.0, value)
    if isinstance(value, (list, tuple)) and any(isinstance(v, Quantity) for v in value):
        a = A.from_list(value)
        return a if unit is None else a.to(unit)
    if value is None or isinstance(value, str):
        raise TypeError("cannot make a Quantity of this")
    u0 = getattr(value, "unit", None)
    a = asarr(value)
    if isinstance(a, Quantity):
        return make_quantity(a, unit, copy)
    if a.kind in "sO":
        raise TypeError("The value must be a valid Python or Numpy numeric type.")
    if u0 is not None and isinstance(u0, UnitBase):
        q = mkq(a, u0)
        return q if unit is None else q.to(unit)
    return mkq(a.copy() if copy else a, unit or one)


def quantity_binop(op, x, y):
    if isinstance(x, UnitBase):
        x = mkq(arr0(num(1.0)), x)
    if isinstance(y, UnitBase):
        y = mkq(arr0(num(1.0)), y)
    if op in ("eq", "ne") and (x is None or y is None or isinstance(x, str) or isinstance(y, str)):
        return op == "ne"
    x = x if isinstance(x, Quantity) else asarr(x)
    y = y if isinstance(y, Quantity) else asarr(y)
    if "s" in (x.kind, y.kind):
        raise TypeError("unsupported operand")
    ux = unit_of(x) or None
    uy = unit_of(y) or None
    if op in ("mul", "div"):
        axes, fn, kind = raw_binop(op, plain(x), plain(y))
        un = (ux or one)._mul(uy or one, 1 if op == "mul" else -1)
        return mkq(Arr(axes, fn, "f"), un)
    if op == "pow":
        if uy is not None:
            y = asarr(y.to_value(one))
        if ux is None:
            axes, fn, kind = raw_binop(op, plain(x), y)
            return mkq(Arr(axes, fn, "f"), one)
        if ux.dimless and ux.scale == ONE:
            axes, fn, kind = raw_binop(op, plain(x), y)
            return mkq(Arr(axes, fn, "f"), one)
        if y.axes and not all(a.is1 for a in y.axes):
            raise UnitsError("Can only raise something to a scalar power")
        e = num(y.scalar())
        axes, fn, kind = raw_binop(op, plain(x), y)
        return mkq(Arr(axes, fn, "f"), UnitBase({k: v * e.p for k, v in ux.dims.items()}, A.t_pow(ux.scale, e.p)))
    if op in ("add", "sub", "mod", "lt", "le", "eq", "ne", "floordiv"):
        un = ux if ux is not None else uy
        if ux is None and not arbitrary_unit(asarr(x)):
            un = one if uy.dimless else uy
        try:
            vx, vy = to_unit(x, un), to_unit(y, un)
        except UnitConversionError:
            if op == "eq" or op == "ne":
                return op == "ne"
            raise
        axes, fn, kind = raw_binop(op, vx, vy)
        if op in ("add", "sub", "mod"):
            return mkq(Arr(axes, fn, "f"), un)
        if op == "floordiv":
            return mkq(Arr(axes, fn, "f"), one)
        return Arr(axes, fn, kind)
    raise TypeError(f"operation {op} on quantities")


def list_quantity(elts, proto):
    un = proto.unit_
    return [to_unit(e, un).reader() for e in elts]


# ------------------------------------------------------------------ decorator
def quantity_input(func=None, strict_dimensionless=False, **targets):
    import inspect
    import functools

    def deco(f):
        sig = inspect.signature(f)

        @functools.wraps(f)
        def wrapper(*a, **k):
            ba = sig.bind(*a, **k)
            ba.apply_defaults()
            for name, target in targets.items():
                if name not in ba.arguments:
                    continue
                v = ba.arguments[name]
                if v is None and sig.parameters[name].default is None:
                    continue
                ts = target if isinstance(target, (list, tuple)) else [target]
                if not hasattr(v, "unit"):
                    # plain numbers pass only for dimensionless targets (and 0, inf, nan)
                    if isinstance(v, UnitBase):
                        v = quantity_binop("mul", 1.0, v)
                    raise TypeError(f"Argument '{name}' to function '{f.__name__}' has no 'unit' attribute.")
                if not any(as_unit(t).is_equivalent(v.unit) for t in ts):
                    raise UnitsError(f"Argument '{name}' to function '{f.__name__}' must be in units convertible to '{ts}'.")
            return f(*a, **k)
        wrapper.__wrapped__ = f
        return wrapper
    return deco if func is None else deco(func)
