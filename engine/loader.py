"""Loads the real source files of /repo/pyirf and executes them natively with numpy,
astropy and scipy replaced by the symbolic contracts of this engine.

The source text is parsed and compiled on every run.  Mechanical rewriting, applied to
every function alike:
  * for T in X: BODY        -> iterate over __loop__(X) with BODY inside a context manager
  * [..]  {..}  (displays)  -> tracked list / dict subclasses
  * comprehensions          -> __comp__(lambda T: elt, X)
  * f-strings               -> __fstr__(...)
Nothing is dropped."""
import ast
import builtins
import os
import sys
import types

from .terms import *
from . import arrays as A
from . import loops
from . import symstr
from .arrays import Arr, IntScalar
from .ctx import ctx

REPO = os.environ.get("VERIF_REPO", "/repo")


# ------------------------------------------------------------------ rewriting
class _Names(ast.NodeVisitor):
    """names in execution order: list of (name, 'load'|'store')"""

    def __init__(self):
        self.ev = []

    def visit_Name(self, n):
        self.ev.append((n.id, "load" if isinstance(n.ctx, ast.Load) else "store"))

    def visit_Assign(self, n):
        self.visit(n.value)
        for t in n.targets:
            self.visit(t)

    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Name):
            self.ev.append((n.target.id, "load"))
        self.visit(n.value)
        self.visit(n.target)

    def visit_AnnAssign(self, n):
        if n.value:
            self.visit(n.value)
        self.visit(n.target)

    def visit_For(self, n):
        self.visit(n.iter)
        self.visit(n.target)
        for s in n.body + n.orelse:
            self.visit(s)

    def visit_If(self, n):
        # stores under a condition do not dominate what follows
        self.visit(n.test)
        before = len(self.ev)
        for s in n.body:
            self.visit(s)
        b1 = self.ev[before:]
        mid = len(self.ev)
        for s in n.orelse:
            self.visit(s)
        b2 = self.ev[mid:]
        s1 = {x for x, k in b1 if k == "store"}
        s2 = {x for x, k in b2 if k == "store"}
        both = s1 & s2
        out = []
        for br, other in ((b1, s2), (b2, s1)):
            done = set()
            for x, k in br:
                if k == "store":
                    done.add(x)
                    if x not in both:
                        out.append((x, "maybe"))
                elif x not in done:
                    out.append((x, "load"))
        out += [(x, "store") for x in both]
        self.ev[before:] = out

    def visit_ListComp(self, n):
        self._comp(n)

    visit_SetComp = visit_GeneratorExp = visit_DictComp = visit_ListComp

    def _comp(self, n):
        bound = set()
        for g in n.generators:
            self.visit(g.iter)
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    bound.add(x.id)
        sub = _Names()
        for g in n.generators:
            for c in g.ifs:
                sub.visit(c)
        for f in ("elt", "key", "value"):
            if hasattr(n, f):
                sub.visit(getattr(n, f))
        self.ev += [(x, k) for x, k in sub.ev if x not in bound]

    def visit_Lambda(self, n):
        bound = {a.arg for a in n.args.args}
        sub = _Names()
        sub.visit(n.body)
        self.ev += [(x, k) for x, k in sub.ev if x not in bound]


def _events(nodes):
    v = _Names()
    for n in nodes:
        v.visit(n)
    return v.ev


def _carried(loop, func):
    ev = _events(loop.body)
    tgt = {x.id for x in ast.walk(loop.target) if isinstance(x, ast.Name)}
    stored = {n for n, k in ev if k in ("store", "maybe")} | tgt
    done = set(tgt)
    out = []
    for n, k in ev:
        if k == "store":
            done.add(n)
        elif k == "load" and n in stored and n not in done:
            out.append(n)
    # used after the loop
    if func is not None:
        after = []

        class V(ast.NodeVisitor):
            def generic_visit(s, n):
                super().generic_visit(n)
        end = loop.end_lineno
        first = {}
        nodes = [n for n in ast.walk(func) if isinstance(n, ast.Name) and n.lineno > end]
        # order of evaluation on later lines: an assignment's value before its target
        for st in ast.walk(func):
            if isinstance(st, ast.stmt) and st.lineno > end and not isinstance(st, (ast.For, ast.If, ast.While, ast.With, ast.Try, ast.FunctionDef)):
                for n, k in _events([st]):
                    key = (st.lineno,)
                    if n not in first or key < first[n][0]:
                        first[n] = (key, k)
            elif isinstance(st, ast.For) and st.lineno > end:
                for n, k in _events([st.iter]) + [(x.id, "store") for x in ast.walk(st.target) if isinstance(x, ast.Name)]:
                    if n not in first or (st.lineno,) < first[n][0]:
                        first[n] = ((st.lineno,), k)
            elif isinstance(st, (ast.If, ast.While)) and st.lineno > end:
                for n, k in _events([st.test]):
                    if n not in first or (st.lineno,) < first[n][0]:
                        first[n] = ((st.lineno,), k)
        for n in stored:
            if n in first and first[n][1] == "load":
                out.append(n)
    return tuple(dict.fromkeys(out))


def _impure(body):
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr != "unit":
                return f"attribute assignment .{n.attr}"
            if isinstance(n, (ast.Global, ast.Nonlocal, ast.Yield, ast.YieldFrom)):
                return type(n).__name__
    return None


class Rewrite(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.func = [None]
        self.n = 0

    def visit_FunctionDef(self, n):
        self.func.append(n)
        self.generic_visit(n)
        self.func.pop()
        return n

    def visit_For(self, n):
        carried, impure = n._pre
        where = f"{self.mod}:{n.lineno}"
        self.generic_visit(n)
        self.n += 1
        name = f"__lp{self.n}"
        call = ast.Call(ast.Name("__loop__", ast.Load()), [n.iter, ast.Constant(carried), ast.Constant(impure), ast.Constant(where)], [])
        asg = ast.Assign([ast.Name(name, ast.Store())], call)
        body = ast.With([ast.withitem(ast.Name(name, ast.Load()), None)], n.body)
        f = ast.For(n.target, ast.Name(name, ast.Load()), [body], n.orelse)
        return [ast.copy_location(asg, n), ast.copy_location(f, n)]

    def visit_While(self, n):
        self.generic_visit(n)
        return n

    def visit_List(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load):
            return ast.copy_location(ast.Call(ast.Name("__slist__", ast.Load()), [n], []), n)
        return n

    def visit_Dict(self, n):
        self.generic_visit(n)
        return ast.copy_location(ast.Call(ast.Name("__sdict__", ast.Load()), [n], []), n)

    def _comp(self, n, kind):
        self.generic_visit(n)
        if len(n.generators) != 1 or n.generators[0].is_async:
            return n
        g = n.generators[0]
        if isinstance(g.target, ast.Name):
            args = ast.arguments([], [ast.arg(g.target.id)], None, [], [], None, [])
            mk = lambda body: ast.Lambda(args, body)
        else:
            names = []

            def conv(t):
                return t
            # lambda __x: (lambda a, b: elt)(*__x)   (one level of tuple)
            if not (isinstance(g.target, ast.Tuple) and all(isinstance(e, ast.Name) for e in g.target.elts)):
                return n
            inner = ast.arguments([], [ast.arg(e.id) for e in g.target.elts], None, [], [], None, [])
            outer = ast.arguments([], [ast.arg("__x")], None, [], [], None, [])
            mk = lambda body: ast.Lambda(outer, ast.Call(ast.Lambda(inner, body), [ast.Starred(ast.Name("__x", ast.Load()), ast.Load())], []))
        cond = ast.Constant(None)
        if g.ifs:
            t = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(ast.And(), g.ifs)
            cond = mk(t)
        return ast.copy_location(ast.Call(ast.Name("__comp__", ast.Load()), [mk(n.elt), g.iter, ast.Constant(kind), cond], []), n)

    def visit_ListComp(self, n):
        return self._comp(n, "list")

    def visit_GeneratorExp(self, n):
        return self._comp(n, "gen")

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant("")
                parts.append(ast.Tuple([self.visit(v.value), ast.Constant(v.conversion), spec], ast.Load()))
        return ast.copy_location(ast.Call(ast.Name("__fstr__", ast.Load()), parts, []), n)


def annotate(tree, func=None):
    """loop-carried names of every for loop, computed on the untouched tree"""
    for n in ast.iter_child_nodes(tree):
        if isinstance(n, ast.For):
            n._pre = _carried(n, func), _impure(n.body)
        annotate(n, n if isinstance(n, ast.FunctionDef) else func)


# ------------------------------------------------------------------ builtins
def s_len(x):
    if hasattr(x, "slen"):
        return x.slen()
    return len(x)


def _typ(c):
    return c if isinstance(c, tuple) else (c,)


def s_isinstance(x, cls):
    if isinstance(cls, types.UnionType):
        cls = cls.__args__
    cs = []
    for c in _typ(cls):
        cs += list(c) if isinstance(c, tuple) else [c]
    if isinstance(x, Arr) and not x.axes and type(x) in (Arr, IntScalar):
        # scalars stand for python / numpy scalars
        if x.kind == "f" and float in cs:
            return True
        if x.kind == "i" and int in cs:
            return True
        if x.kind == "b" and bool in cs:
            return True
        real = tuple(c for c in cs if c is not Arr)
        if any(c is Arr for c in cs) and getattr(x, "is0d", False):
            return True
        return builtins.isinstance(x, real) if real and len(real) == len(cs) else (builtins.isinstance(x, real) if real else False)
    if isinstance(x, symstr.SymStr) and str in cs:
        return True
    return builtins.isinstance(x, cls)


def s_sum(xs, start=0):
    s = loops.sym_iter(xs)
    if s is None:
        return sum(xs, start)
    if isinstance(xs, Arr):
        from . import npshim
        return npshim.sum(xs, axis=0) + start
    if isinstance(xs, loops.SList):
        from . import npshim
        return npshim.sum(xs.as_arr(), axis=0) + start
    raise Unsupported("sum of a symbolic sequence")


def _mm(name):
    b = getattr(builtins, name)

    def f(*a, **k):
        if len(a) == 1:
            s = loops.sym_iter(a[0])
            if s is not None:
                from . import npshim
                if k:
                    raise Unsupported(f"{name} with key over a symbolic sequence")
                return getattr(npshim, name)(A.asarr(a[0]))
        return b(*a, **k)
    return f


def s_abs(x):
    return abs(x)


def s_float(x=0.0):
    if isinstance(x, Arr):
        from .units import Quantity, one
        if isinstance(x, Quantity):
            if not x.unit_.dimless:
                raise TypeError("only dimensionless scalar quantities can be converted to Python scalars")
            x = x.to_value(one)
        if x.axes and not all(a.is1 for a in x.axes):
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return A.arr0(A.num(x.scalar()), "f")
    return float(x)


def s_int(x=0, *a):
    if isinstance(x, Arr):
        from .units import Quantity, one
        if isinstance(x, Quantity):
            x = x.to_value(one)
        if x.axes and not all(q.is1 for q in x.axes):
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return A.arr0(A.n_trunc(x.scalar()), "i")
    return int(x, *a)


def s_round(x, n=None):
    if isinstance(x, Arr):
        from . import npshim
        if n is not None:
            raise Unsupported("round to decimals")
        return npshim.round(x)
    return round(x) if n is None else round(x, n)


def s_bool(x=False):
    return bool(x)


def s_all(xs):
    s = loops.sym_iter(xs)
    if s is None:
        return all(xs)
    from . import npshim
    return bool(npshim.all(A.asarr(xs)))


def s_any(xs):
    s = loops.sym_iter(xs)
    if s is None:
        return any(xs)
    from . import npshim
    return bool(npshim.any(A.asarr(xs)))


def s_list(x=()):
    s = loops.sym_iter(x)
    if s is None:
        return loops.SList(x)
    if s.dim is None:
        raise Unsupported("list of symbolic groups")
    r = loops.SList()
    r.seg = (s.dim, s.elem)
    return r


def s_tuple(x=()):
    s = loops.sym_iter(x)
    if s is None:
        return tuple(x)
    raise Unsupported("tuple of a symbolic sequence")


def s_reversed(x):
    if loops.sym_iter(x) is not None:
        raise Unsupported("reversed")
    return reversed(x)


class _IntType(type):
    def __instancecheck__(cls, o):
        return s_isinstance(o, int)

    def __call__(cls, *a):
        return s_int(*a)


def make_builtins(loader):
    b = dict(vars(builtins))
    b.update(
        __import__=loader.imp, len=s_len, range=loops.s_range, enumerate=loops.s_enumerate, zip=loops.s_zip, sum=s_sum,
        isinstance=s_isinstance, min=_mm("min"), max=_mm("max"), round=s_round, all=s_all, any=s_any, reversed=s_reversed,
        __loop__=loops.loop, __slist__=loops.SList, __sdict__=loops.SDict, __comp__=loops.comp, __fstr__=symstr.fstr,
    )
    return b


# names that must stay classes (used in isinstance / as dtype) but also convert
CONVERT = {"float": s_float, "int": s_int, "list": s_list, "tuple": s_tuple}


class CallRewrite(ast.NodeTransformer):
    """float(x) / int(x) / list(x) / tuple(x) calls -> symbolic conversions"""

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in CONVERT:
            n.func = ast.copy_location(ast.Name(f"__{n.func.id}__", ast.Load()), n.func)
        return n


class Loader:
    """one universe of loaded modules"""

    def __init__(self, shims, repo=None):
        self.repo = repo or REPO
        self.mods = {}
        self.shims = shims
        self.builtins = make_builtins(self)
        for k, v in CONVERT.items():
            self.builtins[f"__{k}__"] = v
        self.sources = {}
        self.on_load = []

    def path(self, name):
        p = os.path.join(self.repo, *name.split("."))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py"), True
        return p + ".py", False

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if "." in name:
            parent = self.load(name.rsplit(".", 1)[0])
        fn, pkg = self.path(name)
        if not os.path.exists(fn):
            raise ModuleNotFoundError(name)
        if name == "pyirf":
            # the package file only resolves the version
            m = types.ModuleType(name)
            m.__path__ = [os.path.dirname(fn)]
            m.__version__ = "0"
            self.mods[name] = m
            return m
        m = types.ModuleType(name)
        m.__file__ = fn
        m.__package__ = name if pkg else name.rsplit(".", 1)[0]
        if pkg:
            m.__path__ = [os.path.dirname(fn)]
        self.mods[name] = m
        m.__dict__["__builtins__"] = self.builtins
        with open(fn) as f:
            src = f.read()
        self.sources[name] = src
        tree = ast.parse(src, fn)
        annotate(tree)
        tree = CallRewrite().visit(tree)
        tree = Rewrite(name).visit(tree)
        ast.fix_missing_locations(tree)
        try:
            exec(compile(tree, fn, "exec"), m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        if "." in name:
            setattr(parent, name.rsplit(".", 1)[1], m)
        for h in self.on_load:
            h(name, m)
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pk = globals["__package__"].split(".")
            pk = pk[: len(pk) - level + 1]
            name = ".".join(pk + ([name] if name else []))
        top = name.split(".")[0]
        if top == "pyirf":
            if name == "pyirf.version" or name == "pyirf._version":
                m = types.ModuleType(name)
                m.__version__ = "0"
                return m
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f) and f != "*":
                        try:
                            self.load(f"{name}.{f}")
                        except ModuleNotFoundError:
                            pass
                return m
            return self.mods["pyirf"]
        if top in self.shims:
            m = self.shims[top]
            if fromlist:
                for part in name.split(".")[1:]:
                    if not hasattr(m, part):
                        raise Unsupported(f"module {name}")
                    m = getattr(m, part)
                for f in fromlist:
                    if not hasattr(m, f) and f != "*":
                        setattr(m, f, Missing(f"{name}.{f}"))
            return m
        return __import__(name, globals, locals, fromlist, 0)


class Missing:
    """a library function without an assumed contract"""

    def __init__(self, name):
        self.__name__ = name

    def __call__(self, *a, **k):
        raise Unsupported(f"no contract for {self.__name__}")

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Missing(f"{self.__name__}.{n}")
