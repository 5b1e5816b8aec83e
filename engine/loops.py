"""Loops over symbolic ranges: one generic iteration, every path of the body, then the
effects of all iterations at once (a parallel-map rule).  Whatever does not fit (a value
carried from one iteration to the next, early exit, two iterations writing the same
element) is Unsupported, never guessed."""
import builtins

from .terms import *
from . import arrays as A
from . import logic as L
from .arrays import Arr, Num, IntScalar, arr0
from .ctx import ctx, PathEnd, SpecError
from .symstr import SymStr


# ------------------------------------------------------------------ symbolic iterables
class SymIter:
    """domain: tag (hashable identity of the index set), dim (None: all integers), guard(k)"""

    def __init__(self, tag, dim, guard, elem):
        self.tag, self.dim, self.guard, self.elem = tag, dim, guard, elem

    def sym_iter(self):
        return self

    def __iter__(self):
        raise Unsupported("native iteration over a symbolic sequence")

    def slen(self):
        if self.dim is None:
            raise Unsupported("length of a symbolic group sequence")
        return A.scalar_int(self.dim)

    def __len__(self):
        raise Unsupported("native len of a symbolic sequence")

    def __getitem__(self, i):
        if self.dim is None:
            raise Unsupported("index into a symbolic group sequence")
        t = A.norm_index(A.int_term(i), self.dim)
        return self.elem(t)


class FlatIter(SymIter):
    """first axis of an array made of several (C order); one index per dimension"""

    def __init__(self, base, at):
        n = ONE
        for d in base:
            n = n * d
        SymIter.__init__(self, ("flat", *[d.key for d in base]), n, lambda k: TRUE, self._no)
        self.base, self.at = tuple(base), at

    def _no(self, k):
        raise Unsupported("loop over a flattened array")


def rng(n, elem, tag=None):
    n = P(n)
    return SymIter(tag or ("range", n.key), n, lambda k: TRUE, elem)


def sym_iter(x):
    """SymIter of x or None when x is iterated natively"""
    if isinstance(x, SymIter):
        return x
    if isinstance(x, Arr):
        if not x.axes:
            return None
        a = x.axes[0]
        if a.plain and a.const() is not None:
            return None
        if not a.plain:
            if a.guard is not None:
                raise Unsupported("iteration over a masked array")
            def at(pt):
                rd = x.reader()
                return x._like(x.axes[1:], lambda idx: rd((pt,) + tuple(idx)))
            return FlatIter(a.base, at)
        return rng(a.base[0], lambda k: x[IntScalar(k)])
    if hasattr(x, "sym_iter"):
        return x.sym_iter()
    return None


def s_range(*a):
    if all(isinstance(v, (int,)) and not isinstance(v, bool) or hasattr(v, "__index__") and not isinstance(v, Arr) for v in a):
        return builtins.range(*a)
    ts = [A.int_term(v) for v in a]
    if len(ts) == 1:
        lo, hi = ZERO, ts[0]
    elif len(ts) == 2:
        lo, hi = ts
    else:
        raise Unsupported("range with a step")
    if all(t.is_const() for t in ts):
        return builtins.range(int(lo.cval()), int(hi.cval()))
    n = hi - lo
    if not ctx().entails(Le(0, n)):
        if not ctx().fork(Le(0, n)):
            return builtins.range(0)
    if n.is_const():
        base = lo
        return [A.scalar_int(base + k) for k in builtins.range(int(n.cval()))]
    return rng(n, lambda k: A.scalar_int(lo + k))


def s_enumerate(x, start=0):
    s = sym_iter(x)
    if s is None:
        return builtins.enumerate(x, start)
    if s.dim is None:
        raise Unsupported("enumerate over symbolic groups")
    return SymIter(s.tag, s.dim, s.guard, lambda k: (A.scalar_int(k + A.int_term(start)), s.elem(k)))


def s_zip(*xs, strict=False):
    ss = [sym_iter(x) for x in xs]
    if all(s is None for s in ss):
        return builtins.zip(*xs, strict=strict)
    if any(s is None for s in ss):
        raise Unsupported("zip of symbolic and concrete sequences")
    f = ss[0]
    if all(isinstance(s, FlatIter) for s in ss):
        if any(s.base != f.base for s in ss):
            raise Unsupported("zip of different flattened arrays")
        return FlatIter(f.base, lambda pt: tuple(s.at(pt) for s in ss))
    for s in ss[1:]:
        if s.tag == f.tag:
            continue
        if f.dim is None or s.dim is None:
            raise Unsupported("zip of different group sequences")
        if ctx().fork(Eq(f.dim, s.dim)):
            continue
        raise Unsupported("zip of sequences of different length")
    return SymIter(f.tag, f.dim, f.guard, lambda k: tuple(s.elem(k) for s in ss))


def s_product(*xs):
    import itertools
    if all(sym_iter(x) is None for x in xs):
        return itertools.product(*xs)
    raise Unsupported("product of symbolic ranges")


# ------------------------------------------------------------------ values
def subst_val(v, m):
    if isinstance(v, Num):
        return Num(subst(v.p, m), subst(v.nan, m), subst(v.pinf, m), subst(v.ninf, m), v.int)
    if isinstance(v, B):
        return subst(v, m)
    if isinstance(v, SymStr):
        return v.subst(m)
    if isinstance(v, A.Choice):
        return A.Choice([(subst(c, m), subst_val(x, m)) for c, x in v.alts])
    return v


def lift(v, k, assume, n_axis=None):
    """value of a generic iteration as a function of the iteration: returns t -> value"""
    katom = k.atoms()[0]
    if isinstance(v, Arr):
        rd = v.reader()

        def at(t):
            def fn(idx):
                # the generic reader is evaluated at the iteration variable, then moved to t
                c = ctx()
                c.assume_stack.append(assume)
                try:
                    e = rd(idx)
                finally:
                    c.assume_stack.pop()
                return subst_val(e, {katom: t})
            if any(katom in set(poly_locals(b)) for a in v.axes for b in a.base):
                raise Unsupported("shape depends on the iteration")
            return v._like(v.axes, fn)
        return at
    if isinstance(v, SymStr):
        return lambda t: v.subst({katom: t})
    if isinstance(v, tuple):
        fs = [lift(x, k, assume) for x in v]
        return lambda t: tuple(f(t) for f in fs)
    if v is None or isinstance(v, (int, float, str, bool)):
        return lambda t: v
    if hasattr(v, "lift_iter"):
        return v.lift_iter(k, assume)
    if isinstance(v, list) and not isinstance(v, SList):
        raise Unsupported("native list as an iteration value")
    raise Unsupported(f"iteration value of type {type(v).__name__}")


class SList(list):
    """list created in the code under verification; may end in a symbolic segment
    (one element per iteration of a symbolic loop)"""

    def __init__(self, *a):
        list.__init__(self, *a)
        self.born = len(ctx().loops)
        self.seg = None      # (dim, at)

    def _guard(self):
        if len(ctx().loops) > self.born:
            raise Unsupported("list modified inside a symbolic loop")
        if self.seg is not None:
            raise Unsupported("modification of a symbolic list")

    def append(self, v):
        if len(ctx().loops) > self.born:
            if len(ctx().loops) != self.born + 1:
                raise Unsupported("append from a nested symbolic loop")
            ctx().loops[-1].note_append(self, v)
            return
        if self.seg is not None:
            raise Unsupported("append after a symbolic segment")
        list.append(self, v)

    def __setitem__(self, i, v):
        self._guard()
        list.__setitem__(self, i, v)

    def extend(self, v):
        self._guard()
        list.extend(self, v)

    def insert(self, i, v):
        self._guard()
        list.insert(self, i, v)

    def pop(self, *a):
        self._guard()
        return list.pop(self, *a)

    def sort(self, **k):
        self._guard()
        list.sort(self, **k)

    def __iadd__(self, v):
        self._guard()
        list.extend(self, v)
        return self

    def __getitem__(self, i):
        if self.seg is None:
            if isinstance(i, Arr):
                return self._symget(A.int_term(i))
            r = list.__getitem__(self, i)
            return SList(r) if isinstance(i, slice) else r
        if list.__len__(self):
            raise Unsupported("list with a concrete head and a symbolic tail")
        if isinstance(i, slice):
            raise Unsupported("slice of a symbolic list")
        return self.seg[1](A.norm_index(A.int_term(i), self.seg[0]))

    def _symget(self, t):
        n = list.__len__(self)
        t = A.norm_index(t, P(n))
        for k in builtins.range(n - 1):
            if ctx().fork(Eq(t, k)):
                return list.__getitem__(self, k)
        return list.__getitem__(self, n - 1)

    def __len__(self):
        if self.seg is not None:
            raise Unsupported("native len of a symbolic list")
        return list.__len__(self)

    def __iter__(self):
        if self.seg is not None:
            raise Unsupported("native iteration over a symbolic list")
        return list.__iter__(self)

    def __bool__(self):
        if self.seg is not None:
            return bool(list.__len__(self)) or ctx().fork(Lt(0, self.seg[0]))
        return bool(list.__len__(self))

    def slen(self):
        if self.seg is None:
            return list.__len__(self)
        return A.scalar_int(self.seg[0] + list.__len__(self))

    def sym_iter(self):
        if self.seg is None:
            return None
        if list.__len__(self):
            raise Unsupported("list with a concrete head and a symbolic tail")
        return rng(self.seg[0], self.seg[1])

    def as_arr(self):
        if self.seg is None:
            return A.from_list(builtins.list(list.__iter__(self)))
        if list.__len__(self):
            raise Unsupported("list with a concrete head and a symbolic tail")
        n, at = self.seg
        k = ctx().index_var(n, "l")
        e = A.asarr(at(k))
        axes = (A.ax(n),) + tuple(e.axes)
        return e._like(axes, lambda idx: A.asarr(at(idx[0][0])).reader()(idx[1:]), e.kind)


class SDict(dict):
    def __init__(self, *a, **k):
        dict.__init__(self, *a, **k)
        self.born = len(ctx().loops)

    def __setitem__(self, k, v):
        if len(ctx().loops) > self.born:
            raise Unsupported("dictionary modified inside a symbolic loop")
        dict.__setitem__(self, k, v)


# ------------------------------------------------------------------ the loop rule
PULL = [None]


class NativeLoop:
    def __init__(self, it, why=None):
        self.it = it
        self.why = why

    def __iter__(self):
        it = iter(self.it)
        while True:
            # a generic name (tables.NameList) may be handed out only here
            old, PULL[0] = PULL[0], self
            try:
                v = next(it)
            except StopIteration:
                return
            finally:
                PULL[0] = old
            yield v

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def loop(it, carried=(), impure=None, where=""):
    s = sym_iter(it)
    if s is None:
        return NativeLoop(it, f"loop-carried variable {carried[0]} ({where})" if carried else f"{impure} ({where})" if impure else None)
    if carried:
        raise Unsupported(f"loop-carried variable {carried[0]} ({where})")
    if impure:
        raise Unsupported(f"{impure} inside a symbolic loop ({where})")
    return SymLoop(s, where)


class SymLoop:
    def __init__(self, s, where=""):
        self.s = s
        self.where = where
        self.state = None

    # -- context manager around the body
    def __enter__(self):
        return self

    def __exit__(self, et, e, tb):
        if et is None:
            self.left = False
            return False
        if issubclass(et, PathEnd):
            self.left = False
            self.dead = True
            return True
        if issubclass(et, (Unsupported, SpecError)) or not issubclass(et, Exception):
            return False
        self.left = False
        self.exc = e
        return True

    # -- journal
    def note_write(self, buf, cond, val):
        if buf.born > self.depth:
            return
        if buf not in self.saved:
            self.saved[buf] = (buf.fn_before, buf.cache_before, buf.writes)
        self.writes.append((buf, cond, val))

    def note_append(self, lst, v):
        self.appends.append((lst, v))

    def note_newcol(self, table, name, value):
        self.newcols.append((table, name, value))

    def note_read(self, buf, idx):
        self.reads.setdefault(buf, []).append(idx)

    def __iter__(self):
        c = ctx()
        s = self.s
        if s.dim is not None:
            self.k = c.index_var(s.dim, "k")
        else:
            self.k = fresh("k")
        k = self.k
        guard = s.guard(k)
        rngc = And(Le(0, k), Lt(k, s.dim)) if s.dim is not None else TRUE
        self.depth = len(c.loops)
        self.hyp = And(guard, rngc)
        self.guard = guard
        self.paths = []
        self.saved = {}
        self.reads = {}
        self.finished = False
        todo = [[]]
        n = 0
        elem = None
        while todo:
            tr = todo.pop()
            n += 1
            if n > 48:
                raise Unsupported(f"too many paths in a loop body ({self.where})")
            c.frames.append((c.trace, c.pos, c.pending))
            c.trace, c.pos, c.pending = list(tr), 0, []
            mark = len(c.pc)
            nst = len(c.assume_stack)
            c.assume_stack.append(self.hyp)
            self.writes, self.appends, self.newcols = [], [], []
            self.exc = None
            self.dead = False
            self.left = True
            c.loops.append(self)
            ok = False
            try:
                yield s.elem(k)
                ok = True
            finally:
                if not ok or self.left:
                    c.poison = f"early exit from a symbolic loop ({self.where})"
                c.loops.pop()
                del c.assume_stack[nst:]
                pcs = [f for f in c.pc[mark:]]
                del c.pc[mark:]
                pend = c.pending
                c.trace, c.pos, c.pending = c.frames.pop()
            if self.left:
                raise Unsupported(f"early exit from a symbolic loop ({self.where})")
            todo += pend
            for b, (fn, cache, w) in self.saved.items():
                b.fn, b.cache = fn, dict(cache)
            if self.dead:
                continue
            cond = And(*[f for f in pcs if isinstance(f, B)])
            self.paths.append((cond, self.exc, self.writes, self.appends, self.newcols))
        self.summarise()

    def summarise(self):
        c = ctx()
        k = self.k
        katom = k.atoms()[0]
        s = self.s
        # exceptions in some iteration end the loop
        raising = [(cd, e) for cd, e, *_ in self.paths if e is not None]
        for cd, e in raising:
            if s.dim is not None:
                ex = L.bany([s.dim], lambda t: subst(And(self.guard, cd), {katom: t}))
            else:
                ex = self.exists_group(And(self.guard, cd), katom)
            if c.fork(ex):
                raise e
        normal = [p for p in self.paths if p[1] is None]
        # buffer writes
        bufs = []
        for _, _, ws, _, _ in normal:
            for b, _, _ in ws:
                if b not in bufs:
                    bufs.append(b)
        for b in bufs:
            self.apply_writes(b, [(cd, co, va) for cd, _, ws, _, _ in normal for bb, co, va in ws if bb is b])
        self.finished = True
        for b in bufs:
            for idx in self.reads.get(b, ()):
                self.check_read(b, idx)
        # appends: exactly one per iteration on every path
        lists = []
        for _, _, _, ap, _ in normal:
            for l, _ in ap:
                if not any(x is l for x in lists):
                    lists.append(l)
        for l in lists:
            vals = []
            for cd, _, _, ap, _ in normal:
                mine = [v for x, v in ap if x is l]
                if len(mine) != 1:
                    raise Unsupported("conditional or repeated append in a symbolic loop")
                vals.append((cd, mine[0]))
            if s.dim is None:
                raise Unsupported("append in a loop over groups")
            if l.seg is not None or list.__len__(l):
                raise Unsupported("append to a non-empty list in a symbolic loop")
            l.seg = (s.dim, self.merge(vals))
        tabs = []
        for _, _, _, _, nc in normal:
            for t, nm, _ in nc:
                if not any(x is t for x in tabs):
                    tabs.append(t)
        for t in tabs:
            t.apply_newcols(self, [(cd, [(nm, v) for tt, nm, v in nc if tt is t]) for cd, _, _, _, nc in normal])

    def exists_group(self, b, katom):
        """exists k: b(k), for a loop over groups: k is determined by a member of the group"""
        raise Unsupported("exception in a loop over groups")

    def merge(self, vals):
        fs = [(cd, lift(v, self.k, And(self.hyp, cd))) for cd, v in vals]
        if len(fs) == 1:
            return fs[0][1]
        katom = self.k.atoms()[0]

        def at(t):
            r = None
            for cd, f in fs:
                v = f(t)
                ct = subst(cd, {katom: t})
                r = v if r is None else merge_val(ct, v, r)
            return r
        return at

    def solve(self, b):
        """k* determined by the condition b (an equation linear in k)"""
        katom = self.k.atoms()[0]
        conj = b.args if b.op == "and" else (b,)
        for x in conj:
            if x.op == "==":
                p = x.args[0]
                co = p.m.get(((katom, 1),))
                if co is not None and abs(co) == 1 and sum(1 for mo in p.m for a, e in mo if katom in set(free_locals(a))) == 1:
                    t = Poly.atom(katom) - p * Poly.const(1 / co)
                    if t.is_int() and katom not in set(poly_locals(t)):
                        return t
        return None

    def apply_writes(self, buf, ws):
        c = ctx()
        katom = self.k.atoms()[0]
        # what was there before is no read of the loop body (those are noted where they happen)
        old = buf.snapshot(False)
        entries = ws

        def fn(idx):
            r = None
            kstar = None
            for cd, cond, val in entries:
                c.assume_stack.append(And(self.hyp, cd))
                try:
                    cc = cond(idx)
                finally:
                    c.assume_stack.pop()
                full = And(cc, cd, self.guard)
                if full is FALSE:
                    continue
                t = self.solve(full)
                if t is None:
                    raise Unsupported(f"cannot tell which iteration writes an element ({self.where})")
                if kstar is not None and kstar != t:
                    if not c.entails(Eq(kstar, t)):
                        raise Unsupported(f"several iterations may write the same element ({self.where})")
                kstar = t
                m = {katom: t}
                hit = And(subst(full, m), *([Le(0, t), Lt(t, self.s.dim)] if self.s.dim is not None else []))
                hit = c.never(hit) if hit is not TRUE else hit
                if hit is FALSE:
                    continue
                c.assume_stack.append(And(self.hyp, cd, cc))
                try:
                    v = val(idx)
                finally:
                    c.assume_stack.pop()
                v = subst_val(v, m)
                if r is None:
                    r = old(idx)
                r = A.e_ite(hit, v, r)
            return old(idx) if r is None else r
        outer = [lp for lp in c.loops if buf.born <= lp.depth]
        # determine the written condition for enclosing loops
        if outer:
            def cond_all(idx):
                hits = []
                for cd, cond, val in entries:
                    c.assume_stack.append(And(self.hyp, cd))
                    try:
                        cc = cond(idx)
                    finally:
                        c.assume_stack.pop()
                    full = And(cc, cd, self.guard)
                    if full is FALSE:
                        continue
                    t = self.solve(full)
                    if t is None:
                        raise Unsupported("nested loop write")
                    hits.append(And(subst(full, {katom: t}), *([Le(0, t), Lt(t, self.s.dim)] if self.s.dim is not None else [])))
                return Or(*hits)
            buf.fn_before, buf.cache_before = buf.fn, dict(buf.cache)
            outer[-1].note_write(buf, cond_all, fn)
        self.written = getattr(self, "written", {})
        self.written[buf] = entries
        buf.fn = fn
        buf.cache = {}
        buf.writes += 1
        # evaluate once now so that what does not fit is reported here
        probe = tuple(a.vars("p") for a in buf.axes)
        c.assume_stack.append(And(*[a.cond(pt) for a, pt in zip(buf.axes, probe)]))
        try:
            fn(probe)
        finally:
            c.assume_stack.pop()

    def check_read(self, buf, idx):
        """an element read in the body must not be one another iteration writes"""
        c = ctx()
        for cd, cond, val in self.written.get(buf, ()):
            c.assume_stack.append(And(self.hyp, cd))
            try:
                cc = And(cond(idx), cd, self.guard)
            finally:
                c.assume_stack.pop()
            katom = self.k.atoms()[0]
            k2 = c.index_var(self.s.dim, "k") if self.s.dim is not None else fresh("k")
            # idx may mention k (this iteration); rename the writer's iteration to k2
            m = {katom: k2}
            ph = [fresh("z") for pt in idx for _ in pt]
            it = iter(ph)
            gidx = tuple(tuple(next(it) for _ in pt) for pt in idx)
            c.assume_stack.append(And(self.hyp, cd))
            try:
                gc = And(cond(gidx), cd, self.guard)
            finally:
                c.assume_stack.pop()
            back = {p.atoms()[0]: t for p, t in zip(ph, [t for pt in idx for t in pt])}
            other = subst(subst(gc, m), back)
            c.assume_stack.append(self.hyp)
            try:
                if not c.entails(Or(Not(other), Eq(k2, self.k))):
                    raise Unsupported(f"loop-carried dependence through an array ({self.where})")
            finally:
                c.assume_stack.pop()


def merge_val(cond, a, b):
    if isinstance(a, Arr) and isinstance(b, Arr):
        ra, rb = a.reader(), b.reader()
        if len(a.axes) != len(b.axes):
            raise Unsupported("values of different shape on different paths")
        if any(A.axes_equal(x, y) is not True and not (x.plain and y.plain and ctx().entails(Eq(x.size, y.size))) for x, y in zip(a.axes, b.axes)):
            raise Unsupported("values of different shape on different paths")
        if a.unit_ is not None and b.unit_ is not None and a.unit_ != b.unit_:
            b = b.to(a.unit_)
            rb = b.reader()
        if (a.unit_ is None) != (b.unit_ is None):
            raise Unsupported("values with and without unit on different paths")
        return a._like(a.axes, lambda i: A.e_ite(cond, ra(i), rb(i)), A.result_kind(a.kind, b.kind))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge_val(cond, x, y) for x, y in zip(a, b))
    if cond is TRUE:
        return a
    if cond is FALSE:
        return b
    if type(a) is type(b) and a == b:
        return a
    if isinstance(a, (Arr, int, float)) and isinstance(b, (Arr, int, float)):
        return merge_val(cond, A.asarr(a), A.asarr(b))
    raise Unsupported("values of different type on different paths")


def comp(f, it, kind="list", cond=None):
    """comprehension [f(x) for x in it if cond(x)]"""
    if hasattr(it, "map_names"):
        return it.map_names(f, cond)
    s = sym_iter(it)
    if s is None:
        gen = (f(x) for x in it if cond is None or cond(x))
        if kind == "gen":
            return gen
        return SList(gen)
    if cond is not None:
        raise Unsupported("filtered comprehension over a symbolic sequence")
    if s.dim is None:
        raise Unsupported("comprehension over symbolic groups")
    if isinstance(s, FlatIter):
        return FlatList(s.base, _nested(f, s, ()))
    lp = SymLoop(s, "comprehension")
    out = SList()
    for x in lp:
        with lp:
            out.append(f(x))
    if kind == "gen":
        return out
    return out


def nested(f, dims):
    """array of the values of f(index) over all indices"""
    return _nested(f, FlatIter(dims, lambda pt: pt), ())


def _nested(f, s, pre):
    """one loop per dimension of a flattened axis"""
    if len(pre) == len(s.base):
        return f(s.at(pre))
    return comp(lambda k: _nested(f, s, pre + (A.int_term(k),)), rng(s.base[len(pre)], lambda k: A.scalar_int(k))).as_arr()


class FlatList(SList):
    """list of one value per element of a flattened axis"""

    def __init__(self, base, values):
        SList.__init__(self)
        self.base, self.values = base, values
        self.seg = (None, None)

    def _no(self, *a, **k):
        raise Unsupported("list of the elements of a flattened array")

    __getitem__ = __bool__ = slen = sym_iter = _no

    def as_arr(self):
        v, k = self.values, len(self.base)
        rd = v.reader()
        return v._like((A.Axis(self.base),) + tuple(v.axes[k:]), lambda idx: rd(tuple((t,) for t in idx[0]) + tuple(idx[1:])))


class DelayedGen:
    pass
