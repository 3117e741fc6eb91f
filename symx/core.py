"""Path exploration engine: depth-first re-execution, z3 decides branches and assertions.

A run of the harness is one *path*.  Every branch that depends on a symbolic
character (or number) calls Explorer.branch(); the explorer replays a prefix
of recorded decisions and, past the prefix, asks which outcomes are feasible.
Outcomes of tests on a single character variable that has only been
constrained by such tests are decided by an exact interval-set pre-solver;
everything else, and every assertion, is decided by z3.
"""
from time import perf_counter as _perf_counter, time as _now
import z3

from .charset import CS, UNICODE, MAXCP

WIDTH = 21


class SymxStop(BaseException):
    """Internal control flow; never to be swallowed by code under test."""


class PathAbort(SymxStop):
    pass


class EngineError(SymxStop):
    pass


class Inconclusive(SymxStop):
    pass


class StepLimit(SymxStop):
    pass


class SC(object):
    """A symbolic character: z3 expression, domain and (for variables) identity."""
    __slots__ = ("e", "dom", "name", "isvar")

    def __init__(self, e, dom, name, isvar=True):
        self.e = e
        self.dom = dom
        self.name = name
        self.isvar = isvar

    def __repr__(self):
        return "<%s>" % self.name


def bvv(n):
    r = _bvc.get(n)
    if r is None:
        r = _bvc[n] = z3.BitVecVal(n, WIDTH)
    return r


_bvc = {}
TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)


def iv_formula(e, iv):
    parts = []
    for a, b in iv:
        if a == b:
            parts.append(e == bvv(a))
        elif a == 0:
            parts.append(z3.ULE(e, bvv(b)))
        elif b == MAXCP:
            parts.append(z3.UGE(e, bvv(a)))
        else:
            parts.append(z3.And(z3.UGE(e, bvv(a)), z3.ULE(e, bvv(b))))
    if not parts:
        return FALSE
    return parts[0] if len(parts) == 1 else z3.Or(parts)


def in_formula(sc, cs):
    """z3 formula for sc in cs, given sc in sc.dom."""
    inside = sc.dom.inter(cs)
    if not inside:
        return FALSE
    outside = sc.dom.minus(cs)
    if not outside:
        return TRUE
    if len(outside.iv) < len(inside.iv):
        return z3.Not(iv_formula(sc.e, outside.iv))
    return iv_formula(sc.e, inside.iv)


class Dec(object):
    __slots__ = ("kind", "f", "val", "alt", "payload", "unary")

    def __init__(self, kind, f, val, alt, payload=None, unary=None):
        self.kind = kind      # 'b' branch, 'a' assume
        self.f = f            # z3 formula of the condition (positive)
        self.val = val        # outcome taken
        self.alt = alt        # other outcome still to be explored
        self.payload = payload
        self.unary = unary


class Stats(object):
    def __init__(self):
        self.paths = 0
        self.aborted = 0
        self.queries = 0
        self.solver_s = 0.0
        self.branches = 0
        self.presolved = 0
        self.checks = 0
        self.unknown = 0

    def as_dict(self):
        return dict(self.__dict__)


CUR = None  # the active explorer


class Explorer(object):
    def __init__(self, deadline=None, max_paths=None, max_steps=400000, solver_timeout_ms=60000):
        self.solver = z3.Solver()
        self.solver.set("timeout", solver_timeout_ms)
        self.trail = []
        self.pushed = 0
        self.stats = Stats()
        self.deadline = deadline
        self.max_paths = max_paths
        self.max_steps = max_steps
        self.complete = False
        self.stop_reason = None
        self.active = False
        self.pending_stop = None

    # ------------------------------------------------------------ path set up
    def _begin(self):
        self.pos = 0
        self.nvars = 0
        self.vars = []          # (name, kind, obj) in order of creation
        self.narrow = {}        # SC var name -> CS still possible (over-approximation)
        self.relational = set()  # SC var names with non unary constraints
        self.known = {}
        self.model = None
        self.steps = 0
        self.pending_stop = None
        self.active = True

    def _check(self, *extra):
        t = _perf_counter()
        r = self.solver.check(*extra)
        self.stats.solver_s += _perf_counter() - t
        self.stats.queries += 1
        if r == z3.unknown:
            self.stats.unknown += 1
            self.stop(Inconclusive("solver returned unknown: %s" % self.solver.reason_unknown()))
        return r == z3.sat

    def stop(self, exc):
        self.pending_stop = exc
        raise exc

    def tick(self, n=1):
        self.steps += n
        if self.steps > self.max_steps:
            self.stop(StepLimit("more than %d steps on one path" % self.max_steps))
        if self.pending_stop is not None:
            raise self.pending_stop

    # ------------------------------------------------------------ variables
    def fresh_name(self, base):
        self.nvars += 1
        return "%s!%d" % (base, self.nvars)

    def new_char(self, dom, base="c"):
        name = self.fresh_name(base)
        if not dom:
            raise EngineError("empty domain")
        sc = SC(z3.BitVec(name, WIDTH), dom, name)
        self.vars.append(sc)
        self.narrow[name] = dom
        self._assume_raw(iv_formula(sc.e, dom.iv), None)
        return sc

    def new_int(self, lo, hi, base="n"):
        name = self.fresh_name(base)
        v = z3.Int(name)
        self.vars.append((name, v))
        cs = []
        if lo is not None:
            cs.append(v >= lo)
        if hi is not None:
            cs.append(v <= hi)
        self._assume_raw(z3.And(cs) if cs else TRUE, None)
        return v

    def new_real(self, lo, hi, base="r"):
        name = self.fresh_name(base)
        v = z3.Real(name)
        self.vars.append((name, v))
        cs = []
        if lo is not None:
            cs.append(v >= lo)
        if hi is not None:
            cs.append(v <= hi)
        self._assume_raw(z3.And(cs) if cs else TRUE, None)
        return v

    # ------------------------------------------------------------ constraints
    def _assume_raw(self, f, unary):
        pos = self.pos
        self.pos += 1
        if pos < len(self.trail):
            d = self.trail[pos]
            if d.kind != "a":
                self.stop(EngineError("nondeterministic replay (assume vs %s)" % d.kind))
        else:
            self.trail.append(Dec("a", f, True, False))
            self.solver.push()
            self.solver.add(f)
            self.model = None

    def assume(self, f):
        """Restrict to inputs satisfying formula f (abort the path if none does)."""
        if f is True:
            return
        if f is False:
            self.stop(PathAbort("assume"))
        f = as_formula(f)
        self._mark_relational(f)
        fresh = self.pos >= len(self.trail)
        self._assume_raw(f, None)
        if fresh and not self._check():
            self.stop(PathAbort("assume"))

    def _mark_relational(self, f):
        # conservatively: every variable becomes relational
        self.all_relational = True
        for v in self.vars:
            if isinstance(v, SC):
                self.relational.add(v.name)

    def branch_in(self, sc, cs):
        """Decide sc in cs."""
        if not sc.isvar:
            return self.branch(in_formula(sc, cs), rel=None)
        name = sc.name
        cur = self.narrow[name]
        inside = cur.inter(cs)
        if not inside:
            return False
        if inside.iv == cur.iv:
            return True
        if self.pending_stop is not None:
            raise self.pending_stop
        self.stats.branches += 1
        pos = self.pos
        self.pos += 1
        if pos < len(self.trail):
            d = self.trail[pos]
            if d.kind != "b" or d.unary is None or d.unary[0] != name or d.unary[1] != cs:
                self.stop(EngineError("nondeterministic replay at %r in %r (recorded %r)" % (sc, cs, d.unary)))
            val = d.val
        else:
            f = in_formula(sc, cs)
            if name in self.relational:
                val, alt = self._decide(f)
            else:
                self.stats.presolved += 1
                alt = True
                # prefer the larger side last so that ordinary characters come first
                val = len(inside) * 2 >= len(cur)
            self.trail.append(Dec("b", f, val, alt, unary=(name, cs)))
            self.solver.push()
            self.solver.add(f if val else z3.Not(f))
            self.model = None
        self.narrow[name] = inside if val else cur.minus(cs)
        return val

    def _decide(self, f):
        """-> (outcome, other outcome feasible)"""
        t = self._check(f)
        if not t:
            return False, False
        o = self._check(z3.Not(f))
        return True, o

    def branch(self, f, rel=None, payload=None):
        """Decide formula f; returns bool."""
        if f is True or f is False:
            return f
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        if self.pending_stop is not None:
            raise self.pending_stop
        fid = f.get_id()
        k = self.known.get(fid)
        if k is not None:
            return k[0]
        self.stats.branches += 1
        pos = self.pos
        self.pos += 1
        if pos < len(self.trail):
            d = self.trail[pos]
            if d.kind != "b" or d.unary is not None or not (d.f is None or d.f.eq(f)):
                self.stop(EngineError("nondeterministic replay: %s vs %s" % (f, d.f)))
            val = d.val
        else:
            val, alt = self._decide(f)
            self.trail.append(Dec("b", f, val, alt))
            self.solver.push()
            self.solver.add(f if val else z3.Not(f))
        self.known[fid] = (val, f)
        self._mark_vars(rel)
        return val

    def _mark_vars(self, rel):
        if rel is None:
            for v in self.vars:
                if isinstance(v, SC):
                    self.relational.add(v.name)
        else:
            for sc in rel:
                if isinstance(sc, SC):
                    if sc.isvar:
                        self.relational.add(sc.name)
                    else:
                        for v in self.vars:
                            if isinstance(v, SC):
                                self.relational.add(v.name)

    def get_model(self):
        if not self._check():
            self.stop(EngineError("path condition is unsatisfiable"))
        return self.solver.model()

    def realize_char(self, sc):
        """Fork over every feasible code point of sc; returns an int."""
        if isinstance(sc, int):
            return sc
        if sc.isvar:
            n = 0
            while True:
                cur = self.narrow[sc.name]
                if len(cur) == 1 and sc.name not in self.relational:
                    return cur.first()
                if len(cur) > 600:
                    self.stop(EngineError("unbounded realization of %r (%d values)" % (sc, len(cur))))
                c = cur.first()
                if len(cur) == 1:
                    return c
                if self.branch_in(sc, CS.rng(c, c)):
                    return c
                n += 1
        return self.realize_term(sc.e)

    def realize_term(self, e, value=lambda v: v.as_long()):
        """Fork over every feasible value of a z3 term (BV, Int or Real)."""
        n = 0
        while True:
            if self.pending_stop is not None:
                raise self.pending_stop
            pos = self.pos
            if pos < len(self.trail):
                v = self.trail[pos].payload
                if v is None:
                    # the value was implied: recorded by an earlier known fact
                    self.stop(EngineError("nondeterministic replay in realize"))
                self.pos += 1
                d = self.trail[pos]
                f = d.f
                val = d.val
            else:
                m = self.get_model()
                v = value(m.eval(e, model_completion=True))
                f = e == (v if type(v) is int else z3.Q(v.numerator, v.denominator))
                self.pos += 1
                o = self._check(z3.Not(f))
                self.trail.append(Dec("b", f, True, o, payload=v))
                self.solver.push()
                self.solver.add(f)
                val = True
            self._mark_vars(None)
            if val:
                return v
            n += 1
            if n > 600:
                self.stop(EngineError("unbounded realization of %s" % e))

    # ------------------------------------------------------------ assertions
    def valid(self, f):
        """None if f holds on every input of this path, else a z3 model refuting it."""
        self.stats.checks += 1
        if f is True:
            return None
        if f is False:
            return self.get_model()
        f = as_formula(f)
        self.solver.push()
        try:
            self.solver.add(z3.Not(f))
            if self._check():
                return self.solver.model()
            return None
        finally:
            self.solver.pop()

    # ------------------------------------------------------------ driver
    def _backtrack(self):
        while self.trail:
            d = self.trail.pop()
            self.solver.pop()
            if d.kind == "b" and d.alt:
                d.alt = False
                d.val = not d.val
                self.trail.append(d)
                self.solver.push()
                self.solver.add(d.f if d.val else z3.Not(d.f))
                return True
        return False

    def explore(self, fn):
        """Run fn once per feasible path.  fn(explorer) may raise SymxStop."""
        global CUR
        CUR = self
        try:
            while True:
                if self.deadline is not None and _now() > self.deadline:
                    self.stop_reason = "deadline"
                    return
                if self.max_paths is not None and self.stats.paths >= self.max_paths:
                    self.stop_reason = "max_paths"
                    return
                self._begin()
                self.stats.paths += 1
                try:
                    fn(self)
                    if self.pending_stop is not None:
                        raise self.pending_stop
                except PathAbort:
                    self.stats.aborted += 1
                finally:
                    self.active = False
                if not self._backtrack():
                    self.complete = True
                    return
        finally:
            CUR = None


class Formula(object):
    """A condition that is only to be asserted, never branched on."""
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f

    def __bool__(self):
        raise EngineError("branch on a Formula")


def as_formula(f):
    if isinstance(f, Formula):
        f = f.f
    if f is True:
        return TRUE
    if f is False:
        return FALSE
    return f
