"""Symbolic strings: concatenations of literals and opaque string values."""
from .terms import *


class SymStr:
    """parts: tuple of python str or Poly (integer code of an opaque string)"""

    def __init__(self, *parts):
        out = []
        for p in parts:
            if isinstance(p, SymStr):
                out += p.parts
            elif isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif p != "":
                out.append(p)
        self.parts = tuple(out)

    def __add__(self, o):
        if isinstance(o, (str, SymStr)):
            return SymStr(*self.parts, *(o.parts if isinstance(o, SymStr) else (o,)))
        if hasattr(o, "as_symstr"):
            return self + o.as_symstr()
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, str):
            return SymStr(o, *self.parts)
        return NotImplemented

    def sym_eq(self, o):
        if isinstance(o, str):
            o = SymStr(o)
        if not isinstance(o, SymStr):
            return FALSE
        a, b = list(self.parts), list(o.parts)
        # strip common literal prefix / suffix
        if len(a) == len(b) and all(type(x) is type(y) for x, y in zip(a, b)):
            if all(x == y for x, y in zip(a, b) if isinstance(x, str)) and sum(isinstance(x, Poly) for x in a) == 1:
                return And(*[Eq(x, y) for x, y in zip(a, b) if isinstance(x, Poly)])
        if len(a) == len(b) == 1 and isinstance(a[0], str) and isinstance(b[0], str):
            return BC(a[0] == b[0])
        # literal against opaque: an uninterpreted fact
        k = (tuple(x if isinstance(x, str) else None for x in a), tuple(x if isinstance(x, str) else None for x in b))
        f = _eqs.get(k)
        args = [x for x in a + b if isinstance(x, Poly)]
        if f is None:
            f = _eqs[k] = Fn(f"streq{k!r}", len(args), "B")
        return BApp(f, *args)

    def __eq__(self, o):
        from .ctx import ctx
        if self is o:
            return True
        return ctx().fork(self.sym_eq(o))

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        return hash(tuple(p if isinstance(p, str) else p.key for p in self.parts))

    def subst(self, m):
        return SymStr(*[p if isinstance(p, str) else subst(p, m) for p in self.parts])

    def startswith(self, s):
        if not isinstance(s, str):
            return any(self.startswith(x) for x in s)
        h = self.parts[0] if self.parts and isinstance(self.parts[0], str) else ""
        if h.startswith(s):
            return True
        if not s.startswith(h):
            return False
        raise Unsupported("prefix of a symbolic string")

    def endswith(self, s):
        if not isinstance(s, str):
            return any(self.endswith(x) for x in s)
        h = self.parts[-1] if self.parts and isinstance(self.parts[-1], str) else ""
        if h.endswith(s):
            return True
        if not s.endswith(h):
            return False
        raise Unsupported("suffix of a symbolic string")

    def __repr__(self):
        return "SymStr" + repr(self.parts)

    def __format__(self, spec):
        raise Unsupported("format of a symbolic string")


_eqs = {}


def fstr(*parts):
    """parts: str literals or (value, conversion, spec)"""
    out = []
    sym = False
    for p in parts:
        if isinstance(p, str):
            out.append(p)
            continue
        v, conv, spec = p
        if hasattr(v, "as_symstr"):
            v = v.as_symstr()
        if isinstance(v, SymStr):
            sym = True
            out.append(v)
            continue
        if conv == 114:
            v = repr(v)
        elif conv == 115:
            v = str(v)
        out.append(format(v, spec))
    if sym:
        return SymStr(*out)
    return "".join(out)
