"""Contracts over the functions of /repo and the machinery that decides them.

A contract names a function of the real code, describes its inputs with their
preconditions, and gives postconditions (and the condition under which it raises).  The
same text is read

  * symbolically: the function's current source is executed on arbitrary inputs, every
    path is enumerated, every postcondition becomes a proof obligation;
  * concretely: on genuine numpy / astropy values against the genuine function (replay of
    counter-models, search for a failing input, standing cross-check of the engine)."""
import logging
logging.disable(logging.CRITICAL)
import copy
import json
import math
import os
import random
import sys
import time
import traceback
import types
import warnings

from .terms import *
from . import terms as T
from . import arrays as A
from . import logic as L
from . import build, shims, spec
from . import ctx as C
from .arrays import Arr, Num
from .ctx import Ctx, PathEnd, SpecError
from .loader import Loader, REPO

REGISTRY = []
LEMMAS = {}


class Contract:
    """base class; subclasses are registered"""
    prop = None           # property id
    target = None         # "pyirf.module:function"
    modifies = ()         # inputs the function is allowed to change
    samples = (120, 1500)  # concrete cases (quick, thorough)
    raises = ()           # [(exception types, lambda S, a: condition)]
    may_raise = ()        # exception types allowed when the condition holds (not iff)
    bounded = None        # text: only the concrete check decides (outside the engine's reach)
    timeout = 6000
    limit = 120.0         # wall seconds for the symbolic run
    covers = ()           # further functions executed in-line through this contract
    assumes = ()          # extra assumptions to list
    replace = {}          # {callee: how its contract is stated, b -> callable}; symbolic run only

    def inputs(self, b):
        raise NotImplementedError

    def call(self, f, a):
        return f(**{k: v for k, v in a.items() if not k.startswith("_")})

    def post(self, S, a, r):
        return ()

    @classmethod
    def name(cls):
        return cls.__name__


def contract(cls):
    assert all(c.__name__ != cls.__name__ for c in REGISTRY), cls.__name__
    REGISTRY.append(cls)
    return cls


def resolve(load, target):
    mod, qual = target.split(":")
    m = load(mod)
    for p in qual.split("."):
        m = getattr(m, p)
    return m


# ------------------------------------------------------------------ symbolic side
class Universe:
    def __init__(self):
        self.loader = Loader(shims.make())

    def get(self, target):
        return resolve(self.loader.load, target)


UNI = {}


def universe(replaced=()):
    """the loaded sources; callees in ``replaced`` are represented by their contract"""
    key = tuple(sorted(replaced))
    if key not in UNI:
        C.CTX[-1] = Ctx()
        u = UNI[key] = Universe()
        u.now = {}

        def hook(name, m):
            for t in key:
                mod, fn = t.split(":")
                if mod == name:
                    o = getattr(m, fn)
                    setattr(m, fn, lambda *a, _t=t, _o=o, **k: u.now[_t](*a, **k, **({"_orig": _o} if getattr(u.now[_t], "bound", False) else {})))
        u.loader.on_load.append(hook)
    return UNI[key]


class Ob:
    """one proof obligation"""

    def __init__(self, name, path):
        self.name, self.path = name, path
        self.status, self.backend, self.secs = None, None, 0.0
        self.res = None
        self.goal = None
        self.doubt = None   # the exception came out of the library model, not the target

    def row(self):
        return {"name": self.name, "path": self.path, "status": self.status, "backend": self.backend, "secs": round(self.secs, 3)}


class SymReport:
    def __init__(self):
        self.obs = []
        self.paths = 0
        self.normal = 0
        self.raised = {}
        self.unsupported = None
        self.error = None
        self.secs = 0.0
        self.assumptions = set()

    @property
    def failed(self):
        return [o for o in self.obs if o.status != "proved"]


def _decide(ob, hyps, goal, timeout):
    t = time.time()
    r = L.prove(hyps, goal, timeout)
    if r.status != "proved":
        # retry with a larger limit; L caches by the query, so drop the entry
        L._cache.clear()
        r = L.prove(hyps, goal, timeout * 4)
    ob.status, ob.backend, ob.res = r.status, r.backend, r
    ob.goal = goal
    ob.secs = time.time() - t
    return ob


def _sat(S, x):
    if isinstance(x, B):
        return x
    return BC(bool(x))


def run_symbolic(cls, stop_after=6):
    """enumerates the paths of the target under its precondition and decides every obligation"""
    rep = SymReport()
    t0 = time.time()
    c = cls()
    uni = universe(cls.replace)
    todo = [[]]
    S = spec.SymS()
    nested = len(C.CTX)
    try:
        c.get = uni.get
        f = uni.get(cls.target) if cls.target else None
        while todo:
            if time.time() - t0 > cls.limit:
                rep.unsupported = f"time limit of {cls.limit} s"
                break
            tr = todo.pop()
            T.reset_fresh()
            cx = Ctx(tr)
            C.CTX.append(cx)
            try:
                b = build.SymB(S)
                exc = None
                r = None
                try:
                    if cls.replace:
                        uni.now.update({t: make(b) for t, make in cls.replace.items()})
                        cx.assumptions |= {f"{t} is represented by its contract" for t in cls.replace}
                    a = c.inputs(b)
                    cx.in_target = True
                    try:
                        r = c.call(f, a)
                    except Unsupported:
                        raise
                    except (PathEnd, SpecError):
                        raise
                    except RecursionError:
                        raise Unsupported("recursion")
                    except Exception as e:
                        exc = e
                    if cx.poison:
                        raise Unsupported(cx.poison)
                    path = "".join("T" if d else "F" for d in cx.trace) or "-"
                    rep.paths += 1
                    # everything below only reads; lazily evaluated elements of the result
                    # are computed here, still under the path condition
                    obs = []
                    if exc is not None:
                        hit = None
                        for types_, cond in list(c.raises) + list(c.may_raise):
                            if is_exc(exc, types_):
                                hit = cond
                                break
                        nm = type(exc).__name__
                        rep.raised[nm] = rep.raised.get(nm, 0) + 1
                        ob = Ob(f"raises:{nm}" if hit else f"no-exception:{nm}: {str(exc)[:100]}", path)
                        cx.spec_mode = 1
                        goal = _sat(S, hit(S, a)) if hit else FALSE
                        tb = traceback.extract_tb(exc.__traceback__)
                        if tb and os.path.dirname(os.path.abspath(tb[-1].filename)) == os.path.dirname(os.path.abspath(__file__)):
                            ob.doubt = f"{exc!r}" + _where(exc)
                        _decide(ob, cx.hyps(goal), goal, cls.timeout)
                        if ob.status == "proved" and goal is FALSE:
                            rep.paths -= 1
                        rep.obs.append(ob)
                    else:
                        rep.normal += 1
                        cx.spec_mode = 1
                        for types_, cond in c.raises:
                            ob = Ob(f"must-raise:{_tn(types_)}", path)
                            goal = Not(_sat(S, cond(S, a)))
                            rep.obs.append(_decide(ob, cx.hyps(goal), goal, cls.timeout))
                        for name, buf in b.buffers:
                            if name in c.modifies:
                                continue
                            ob = Ob(f"frame:{name}", path)
                            ob.status = "proved" if buf.writes == 0 else "sat"
                            ob.backend = "engine"
                            ob.goal = BC(buf.writes == 0)
                            rep.obs.append(ob)
                        for ob in _posts(c, S, cx, a, r, path, rep):
                            rep.obs.append(ob)
                            if len(rep.failed) >= stop_after:
                                break
                except PathEnd:
                    pass
                rep.assumptions |= cx.assumptions
                todo += cx.pending
            finally:
                del C.CTX[nested:]
            if len(rep.failed) >= stop_after:
                break
    except Unsupported as e:
        rep.unsupported = str(e) + _where(e)
    except SpecError as e:
        rep.unsupported = f"specification: {e}" + _where(e)
    except ModuleNotFoundError as e:
        rep.error = repr(e)
    except (AttributeError, TypeError, ValueError, NotImplementedError, KeyError, IndexError, AssertionError, ZeroDivisionError, RecursionError) as e:
        # an internal error of the engine is not a verdict about the code
        rep.unsupported = f"engine: {e!r}" + _where(e)
    finally:
        del C.CTX[nested:]
    rep.secs = time.time() - t0
    return rep


def _tn(t):
    if isinstance(t, tuple):
        return "/".join(_tn(x) for x in t)
    return t if isinstance(t, str) else t.__name__


def is_exc(e, types_):
    """classes of the code under test are named (the symbolic run loads its own copies)"""
    for t in types_ if isinstance(types_, tuple) else (types_,):
        if isinstance(t, str):
            if any(c.__name__ == t for c in type(e).__mro__):
                return True
        elif isinstance(e, t):
            return True
    return False


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    fr = [x for x in tb if "/pyirf/" in x.filename]
    last = tb[-1] if tb else None
    s = ""
    if fr:
        s += f" [{os.path.basename(fr[-1].filename)}:{fr[-1].lineno}]"
    if last:
        s += f" [engine {os.path.basename(last.filename)}:{last.lineno} {last.name}]"
    return s


def _posts(c, S, cx, a, r, path, rep):
    gen = c.post(S, a, r)
    it = iter(gen)
    while True:
        mark = len(cx.assume_stack)
        try:
            item = next(it)
        except StopIteration:
            return
        except (Unsupported, SpecError, PathEnd):
            raise
        except Exception as e:
            ob = Ob(f"post-evaluation: {e!r}" + _where(e), path)
            goal = FALSE
            _decide(ob, cx.hyps(goal), goal, c.timeout)
            yield ob
            return
        name = item[0]
        ob = Ob(name, path)
        try:
            if len(item) == 2:
                goal = _sat(S, item[1])
            else:
                dims = item[1] if isinstance(item[1], (list, tuple)) else [item[1]]
                vs = [cx.index_var(P(d.p if isinstance(d, Num) else d), "i") for d in dims]
                ranges = [cx.var_facts[v.atoms()[0]] for v in vs]
                cx.assume_stack += ranges
                goal = _sat(S, item[2](*vs))
        except (Unsupported, SpecError, PathEnd):
            raise
        except Exception as e:
            ob.name += f": evaluation: {e!r}" + _where(e)
            goal = FALSE
        _decide(ob, cx.hyps(goal), goal, c.timeout)
        del cx.assume_stack[mark:]
        yield ob
        if ob.status == "proved" and goal is not FALSE:
            # a proved postcondition may be used by the following ones
            if len(item) == 2:
                cx.add(goal)


# ------------------------------------------------------------------ concrete side
_real = {}


def real(target):
    if target is None:
        return None
    if target not in _real:
        import importlib
        if sys.path[0] != REPO:
            sys.path.insert(0, REPO)
        _real[target] = resolve(importlib.import_module, target)
    return _real[target]


class Failure:
    def __init__(self, name, detail, log, how):
        self.name, self.detail, self.log, self.how = name, detail, log, how


def snap(v):
    import numpy as np
    if isinstance(v, np.ndarray):
        return v.copy()
    try:
        return copy.deepcopy(v)
    except Exception:
        return v


def same_value(x, y):
    import numpy as np
    import astropy.units as u
    from astropy.table import Table
    if type(x) is not type(y):
        return False
    if isinstance(x, Table):
        return x.colnames == y.colnames and all(same_value(x[n], y[n]) for n in x.colnames) and x.meta == y.meta
    if isinstance(x, u.Quantity):
        return x.unit == y.unit and np.array_equal(x.value, y.value, equal_nan=True)
    if isinstance(x, np.ndarray):
        if x.shape != y.shape:
            return False
        if x.dtype.kind in "fc":
            return np.array_equal(x, y, equal_nan=True)
        return bool(np.all(np.asarray(x == y)))
    if isinstance(x, (list, tuple)):
        return len(x) == len(y) and all(same_value(p, q) for p, q in zip(x, y))
    if isinstance(x, dict):
        return list(x) == list(y) and all(same_value(x[k], y[k]) for k in x)
    if isinstance(x, (int, float, str, bool, type(None))):
        return x == y or x != x
    return True


MAXIDX = 3000


def run_case(cls, b, how):
    """one concrete case; None if it holds, Failure otherwise"""
    import numpy as np
    c = cls()
    S = b.S
    c.get = real
    a = c.inputs(b)
    before = {k: snap(v) for k, v in a.items() if k not in c.modifies}
    f = real(cls.target)
    exc = r = None
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        try:
            r = c.call(f, a)
        except (KeyboardInterrupt, SystemExit):
            raise
        except Exception as e:
            exc = e

        def fail(name, detail=""):
            return Failure(name, detail, dict(b.log), how)
        try:
            if exc is not None:
                for types_, cond in list(c.raises) + list(c.may_raise):
                    if is_exc(exc, types_):
                        if S.true(cond(S, a)):
                            return None
                        return fail(f"raises:{type(exc).__name__}", f"raised {exc!r} although it must not")
                return fail("no-exception", f"raised {exc!r}")
            for types_, cond in c.raises:
                if S.true(cond(S, a)):
                    return fail(f"must-raise:{_tn(types_)}", "returned normally")
            for k, v in before.items():
                if not same_value(v, a[k]):
                    return fail(f"frame:{k}", f"input {k} was modified in place")
            it = iter(c.post(S, a, r))
            while True:
                try:
                    item = next(it)
                except StopIteration:
                    break
                name = item[0]
                if len(item) == 2:
                    if not item[1]:
                        return fail(name, _show(r))
                else:
                    dims = item[1] if isinstance(item[1], (list, tuple)) else [item[1]]
                    box = list(S._box(dims)) if math.prod(int(d) for d in dims) <= MAXIDX else \
                        [tuple(b.rng.randrange(int(d)) for d in dims) for _ in range(MAXIDX)]
                    for idx in box:
                        if not item[2](*idx):
                            return fail(name, f"at index {idx}: result {_show(r)}")
        except build.Reject:
            raise
        except Exception as e:
            return fail(f"post-evaluation: {e!r}", _where(e) + " " + _show(r))
    return None


def _show(r):
    try:
        s = repr(r)
    except Exception:
        s = f"<{type(r).__name__}>"
    return s if len(s) < 1500 else s[:1500] + "..."


class ConReport:
    def __init__(self):
        self.tried = self.ran = self.rejected = 0
        self.failure = None
        self.secs = 0.0


def run_concrete(cls, n, seed, budget, only=None):
    rep = ConReport()
    t0 = time.time()
    S = spec.ConS()
    i = 0
    real(cls.target)
    while rep.ran < n and rep.tried < 30 * n + 50:
        if time.time() - t0 > budget:
            break
        rng = random.Random(f"{seed}:{cls.__name__}:{i}")
        i += 1
        rep.tried += 1
        b = build.ConB(S, rng)
        try:
            fl = run_case(cls, b, {"kind": "random", "seed": seed, "case": i - 1})
        except build.Reject:
            rep.rejected += 1
            continue
        rep.ran += 1
        if fl is not None and (only is None or fl.name in only):
            rep.failure = fl
            break
    rep.secs = time.time() - t0
    return rep


def replay_model(cls, ob, tries=6):
    """the counter-model of a failed obligation, run against the genuine code"""
    if ob.res is None or ob.res.model is None:
        return None
    S = spec.ConS()
    for t in range(tries):
        b = build.ModelB(S, random.Random(t), ob.res.model, ob.res.tr, L.z3)
        try:
            fl = run_case(cls, b, {"kind": "model", "obligation": ob.name, "variant": t})
        except build.Reject:
            continue
        except Exception:
            continue
        if fl is not None:
            return fl
    return None
