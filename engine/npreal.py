"""Conversion of genuine numpy / astropy values (constants the specification or the
sandboxed code may meet) to symbolic arrays."""
from fractions import Fraction

import numpy as np

from .terms import *
from . import arrays as A


def frac(x):
    return Fraction(repr(float(x)))


def elem(x):
    if isinstance(x, (bool, np.bool_)):
        return BC(bool(x))
    if isinstance(x, (int, np.integer)):
        return A.num(int(x))
    return A.num(float(x))


def convert(x):
    if isinstance(x, (np.bool_, np.integer, np.floating)):
        return A.arr0(elem(x))
    if isinstance(x, np.ndarray) and type(x) is np.ndarray:
        if x.dtype.kind not in "biuf":
            return None
        kind = {"b": "b", "i": "i", "u": "i", "f": "f"}[x.dtype.kind]
        data = x

        def fn(idx):
            t = []
            for pt in idx:
                if not pt[0].is_const():
                    return pick(data, idx)
                t.append(int(pt[0].cval()))
            return elem(data[tuple(t)])
        return A.Arr([A.ax(int(n)) for n in x.shape], fn, kind)
    return None


def pick(data, idx):
    """element of a constant array at a symbolic index"""
    import itertools
    if data.dtype.kind == "f" and data.size > 8 and np.isfinite(data).all():
        return A.Num(app(_constfn(data), *[pt[0] for pt in idx]))
    if data.size > 64:
        raise Unsupported("symbolic index into a large constant array")
    r = None
    for t in itertools.product(*[range(n) for n in data.shape]):
        c = And(*[Eq(pt[0], k) for pt, k in zip(idx, t)])
        e = elem(data[t])
        r = e if r is None else A.e_ite(c, e, r)
    return r


_consts = {}


def _constfn(data):
    """a constant table as a function of the index, with its values as axioms"""
    key = (data.shape, data.tobytes())
    f = _consts.get(key)
    if f is None:
        f = Fn(f"table{len(_consts)}", data.ndim, "R", pos=bool((data > 0).all()))
        lo, hi = frac(data.min()), frac(data.max())

        def axiom(*i):
            out = [Le(P(lo), app(f, *i)), Le(app(f, *i), P(hi))]
            if all(t.is_const() for t in i):
                t = tuple(int(x.cval()) for x in i)
                if all(0 <= a < n for a, n in zip(t, data.shape)):
                    out = [Eq(app(f, *i), P(frac(data[t])))]
            return out
        f.axioms.append(axiom)
        if data.ndim == 1 and (np.diff(data) > 0).all():
            f.pair_axioms.append(lambda a, b: [Implies(Lt(a[0], b[0]), Lt(app(f, *a), app(f, *b)))])
        _consts[key] = f
    return f
