"""Execution context of one symbolic path: path condition, decisions, obligations."""
from .terms import *
from . import logic as L


class PathEnd(BaseException):
    """current path is infeasible or already covered"""


class SpecError(Exception):
    pass


class Obligation:
    __slots__ = ("name", "status", "hyps", "goal", "backend", "detail", "path", "model")

    def __init__(self, name, hyps, goal):
        self.name = name
        self.hyps = hyps
        self.goal = goal
        self.status = None
        self.backend = None
        self.detail = ""
        self.model = None


class Ctx:
    def __init__(self, trace=()):
        self.pc = []            # facts: B or Forall
        self.trace = list(trace)
        self.pos = 0
        self.pending = []       # alternatives discovered
        self.var_facts = {}     # bound variable atom -> B
        self.assume_stack = []
        self.obligations = []
        self.inputs = {}
        self.input_buffers = []
        self.loops = []
        self.merge = None
        self.flags_cache = {}
        self.replaying = False
        self.forks = 0
        self.notes = []
        self.callee_stack = []
        self.spec_mode = 0
        self.frames = []        # saved (trace, pos, pending) of enclosing explorations
        self.poison = None
        self.assumptions = set()

    # facts ------------------------------------------------------------------
    def add(self, f):
        if f is TRUE:
            return
        self.pc.append(f)

    def local_facts(self, *terms):
        fs = []
        seen = set()
        stack = set()
        for t in terms:
            stack |= set(locals_of(t))
        while stack:
            a = stack.pop()
            if a in seen:
                continue
            seen.add(a)
            f = self.var_facts.get(a)
            if f is not None:
                fs.append(f)
                stack |= set(b_locals(f)) - seen
        return fs

    def hyps(self, *terms):
        h = list(self.pc) + list(self.assume_stack)
        return h + self.local_facts(*terms, *[x for x in h if isinstance(x, B)])

    def entails(self, b, timeout=1500, congr=False):
        if b is TRUE:
            return True
        if b is FALSE:
            return False
        if congr:
            # sums and the like in the hypotheses rarely help, but cost much
            hs = [h for h in self.hyps(b) if not isinstance(h, B) or not any(a.kind == "app" and a.fn.agg is not None for a in L.walk_atoms([h]))]
            if L.prove(hs, b, timeout, congr=True).status == "proved":
                return True
        return L.prove(self.hyps(b), b, timeout, congr=congr).status == "proved"

    def never(self, b):
        """try to show that the flag b is false; returns the simplified flag"""
        if b is FALSE or b is TRUE:
            return b
        k = (b, len(self.pc), tuple(x.id for x in self.assume_stack))
        r = self.flags_cache.get(k)
        if r is None:
            if self.entails(Not(b)):
                r = FALSE
            else:
                r = b
            self.flags_cache[k] = r
        return r

    def index_var(self, n, prefix="i"):
        v = fresh(prefix)
        a = v.atoms()[0]
        self.var_facts[a] = And(Le(0, v), Lt(v, n))
        return v

    # decisions ----------------------------------------------------------------
    def fork(self, b):
        if b is TRUE:
            return True
        if b is FALSE:
            return False
        if self.spec_mode:
            raise SpecError(f"specification branches on a symbolic condition {b!r}")
        if b in self.pc:
            return True
        if Not(b) in self.pc:
            return False
        if self.pos < len(self.trace):
            d = self.trace[self.pos]
            self.pos += 1
        else:
            h = self.hyps(b)
            can_t = L.feasible(h + [b])
            can_f = L.feasible(h + [Not(b)])
            if not can_t and not can_f:
                raise PathEnd("infeasible")
            if can_t and can_f:
                self.forks += 1
                if self.forks > 40:
                    raise Unsupported("too many branches on one path")
                self.pending.append(self.trace[: self.pos] + [False])
                d = True
            else:
                d = can_t
            self.trace.append(d)
            self.pos += 1
        self.add(b if d else Not(b))
        return d


CTX = [Ctx()]


def ctx():
    return CTX[-1]


def explore(fn, hyp=TRUE, limit=48):
    """run fn on every feasible path under hyp; returns [(condition, result or exception)].
    Facts learnt inside a path do not leak out."""
    c = ctx()
    out = []
    todo = [[]]
    n = 0
    mode, c.spec_mode = c.spec_mode, 0
    try:
        return _explore(c, fn, hyp, limit, out, todo, n)
    finally:
        c.spec_mode = mode


def _explore(c, fn, hyp, limit, out, todo, n):
    while todo:
        tr = todo.pop()
        n += 1
        if n > limit:
            raise Unsupported("too many paths in a nested body")
        c.frames.append((c.trace, c.pos, c.pending))
        c.trace, c.pos, c.pending = list(tr), 0, []
        mark = len(c.pc)
        nst = len(c.assume_stack)
        c.assume_stack.append(hyp)
        try:
            try:
                r = fn()
                out.append((And(*[f for f in c.pc[mark:] if isinstance(f, B)]), r))
            except PathEnd:
                pass
            except (Unsupported, SpecError):
                raise
            except Exception as e:  # the body raises on this path
                out.append((And(*[f for f in c.pc[mark:] if isinstance(f, B)]), Raised(e)))
            todo += c.pending
        finally:
            del c.assume_stack[nst:]
            del c.pc[mark:]
            c.trace, c.pos, c.pending = c.frames.pop()
    return out


class Raised:
    def __init__(self, e):
        self.e = e


def _on_fresh(atom, dim):
    ctx().var_facts[atom] = And(Le(0, Poly.atom(atom)), Lt(Poly.atom(atom), dim))


L.ON_FRESH = _on_fresh
